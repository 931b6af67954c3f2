"""L01: written files are laid out as the GEMPAK data management library lays them out."""

import itertools

import numpy as np
import pyproj

from gempakio import GridFile
from mc import grids, layout, stations
from mc.checks import g01_grid_history, g04_projections
from mc.core import expect
from mc.navref import Plane

PROPERTY = 'L01'
LEVEL = 'model_checking'
RULE = (
    'A case is one history of additions and writes on a real SoundingFile, SurfaceFile or '
    'GridFile, or one grid placement; the bytes of the file at its end are parsed without the '
    'library and compared with the layout the data management library defines and with the '
    'entries that were added. Non-trivial: distinct history or placement.'
)
CASE_SECONDS = 120


def plan(tier):
    deep = tier == 'thorough'
    units = []
    for kind in ('snd', 'sfc'):
        for u in stations.plan(kind, tier):
            if u['u'] in ('hist', 'lev', 'size', 'large'):
                units.append({'of': 's', **u})
        for r, c in [(1, 4), (4, 1), (1, 7), (7, 1), (2, 3), (3, 2), (3, 3), (2, 5), (5, 2), (3, 4),
                     (4, 3)] + ([(4, 4), (2, 7), (7, 2), (3, 5), (5, 3)] if deep else []):
            units += [{'of': 's', 'u': 'occ', 'kind': kind, 'r': r, 'c': c, 'lo': lo,
                       'hi': min(lo + 256, 2 ** (r * c))} for lo in range(1, 2 ** (r * c), 256)]
        units += [{'of': 'perm', 'kind': kind, 'first': k, 'n': 6 if deep else 5}
                  for k in range(6 if deep else 5)]
    for u in g01_grid_history.plan(tier):
        if u['u'] == 'hist':
            units.append({'of': 'g', **u, 'depth': 3 if not deep else u['depth']})
        elif u['u'] in ('orders', 'large', 'shape'):
            units.append({'of': 'g', **u})
    units += [{'of': 'count', 'lo': lo} for lo in range(1, 520 if deep else 170, 10)]
    units += [{'of': 'bits', 'bits': b} for b in range(1, 32)]
    units += [{'of': 'nav', 'code': c, 'part': k, 'all': deep}
              for c in g04_projections.writable() for k in range(2)]
    return units


def run_unit(unit, rec):
    of = unit['of']
    if of == 's':
        stations.run_unit(unit, rec)
    elif of == 'g':
        g01_grid_history.run_unit(unit, rec)
    elif of == 'perm':
        kind, n = unit['kind'], unit['n']
        cells = [(0, 0), (0, 1), (1, 1), (2, 0), (1, 2), (2, 2)][:n]
        lev = [2, 0, 1, 5, 3, 40] if kind == 'snd' else [1] * 6
        ops = [['add', stations.TIMES[i], 'dt', 10.0 + j, -20.0, {'station_id': f'ST{j}'},
                {'code': k + 1, 'nlev': max(lev[k], 1)}, {}] for k, (i, j) in enumerate(cells)]
        rest = [k for k in range(n) if k != unit['first']]
        for p in itertools.permutations(rest):
            seq = [ops[unit['first']], *(ops[k] for k in p)]
            base = {'kind': kind, 'params': stations.PARAMS[kind]}
            rec.case({**base, 'ops': seq})
            for k in range(1, n):  # written in between, and one of them replaced
                rec.case({**base, 'ops': [*seq[:k], ['write'], *seq[k:]]})
            again = [*seq[0][:6], {'code': 50, 'nlev': 4 if kind == 'snd' else 1}, {}]
            rec.case({**base, 'ops': [*seq, ['write'], again]})
    elif of == 'count':
        for n in range(unit['lo'], unit['lo'] + 10):
            for size in ((1, 1), (3, 2), (11, 11)):
                rec.case({'size': list(size), 'ops': [
                    grids.G(lev=k, v=('ramp', float(k), 1.0)) for k in range(n)]})
    elif of == 'bits':
        for nx in range(1, 14):
            for ny in (1, 2, 3, 5, 10, 12):
                rec.case({'size': [nx, ny], 'bits': unit['bits'], 'ops': [
                    grids.G(lev=k, v=('ramp', float(k), 1.0)) for k in range(2)]})
    elif of == 'nav':
        code = unit['code']
        forms = [(m, r) for m in ('xy', 'll') for r in (0, 12.5)]
        for k, (s, a) in enumerate(g04_projections.strings(code)[unit['part']::2]):
            plane = Plane(code, *a)
            for m, rect in enumerate(g04_projections.rects(code, a)):
                for n, size in enumerate(((1, 1), (1, 3), (3, 1), (2, 2), (5, 4))):
                    if not g04_projections.fits(plane, rect, size):
                        continue
                    for mode, rot in forms if unit['all'] else [forms[(k + m + n) % 4]]:
                        rec.case({'code': code, 's': s, 'a': a, 'rect': rect, 'size': size,
                                  'mode': mode, 'rot': rot})


def run_case(case, rec):
    path = rec.path()
    if 'kind' in case:
        stations.replay(case, rec, reader=False)
        if any(op[0] == 'add' for op in case['ops']):
            with open(path, 'rb') as h:
                layout.check(h.read(), case['kind'], case['params'])
    elif 'code' in case:
        place(case, rec, path)
    else:
        grids.replay(case, rec, reader=False)
        if any(op[0] == 'add' for op in case['ops']):
            with open(path, 'rb') as h:
                o = layout.check(h.read(), 'grid')
            nx, ny = case.get('size', (4, 3))
            layout.check_navigation(o, nx, ny, 'STR', (90, -105, 0))


def place(case, rec, path):
    """Write a grid somewhere and look at the blocks that say where it is."""
    code = case['code']
    nx, ny = case['size']
    proj = pyproj.Proj(case['s'] + ' +R=6371200')
    plane = Plane(code, *case['a'])
    full = {**case, 'dt': 'f8', 'lc': 'w', 'R': 6371200.0}
    _nodes, lon, lat = g04_projections.grid_of(full, plane, proj)
    f = GridFile(lon, lat, proj, use_xy=case['mode'] == 'xy', rotation=case['rot'])
    for k in range(2):
        f.add_grid(np.arange(nx * ny, dtype=float).reshape(ny, nx), 'TMPK', 'PRES', 500 + k,
                   '202001010000')
    f.to_gempak(path)
    rec.step(3)
    with open(path, 'rb') as h:
        o = layout.check(h.read(), 'grid')
    expect(len(o.data) == 2, 'two grids')
    layout.check_navigation(o, nx, ny, code, (None, None, None))
    rec.state([code, case['s'], case['rect'], case['size'], case['mode']])
    rec.outcome(f'{code} placed')
