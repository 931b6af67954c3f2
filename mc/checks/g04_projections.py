"""G04: where grid points are, for grids written and for navigation blocks of other writers."""

import math
import struct

import numpy as np
import pyproj

from gempakio import GempakGrid, GridFile
from mc import gemref, gridread
from mc.core import expect, Violation
from mc.navref import AZIMUTHAL, CONIC, CYLINDRICAL, distance, Plane, R, wrap

PROPERTY = 'G04'
LEVEL = 'model_checking'
RULE = (
    'A case is one grid placed on the globe: a projection (every code that can be read, or every '
    'projection that can be written) with its angles, a rectangle of its plane, a size, and the '
    'form its coordinates are given in. Latitude and longitude of every node are compared with '
    'plain-arithmetic projection formulas, from the file bytes and through the reader. '
    'Non-trivial: distinct placement.'
)
TOL = 1e-3  # degrees of arc: about 100 m, single precision coordinates
CASE_SECONDS = 30

# Rectangles of the plane, in sphere radii: x0, y0, x1, y1.
RECTS = [
    (-0.02, -0.01, 0.03, 0.02),
    (-0.5, -0.4, 0.5, 0.4),
    (0.1, 0.15, 0.6, 0.5),
    (-0.65, -0.6, -0.1, -0.05),
    (-0.3, 0.5, 0.4, -0.35),  # rows from the top down
    (0.0, 0.0, 0.25, 0.5),
    (-0.7, -0.2, 0.7, 0.1),
    (-1.2, -0.9, 1.1, 1.0),
    (0.9, -1.3, 1.4, 0.2),
]
# Degrees east of the central meridian, and rows in plane units.
D = math.pi / 180
CYL = [
    (-180 * D, -1.5, 179 * D, 1.5),
    (-180 * D, 1.2, 178 * D, -1.0),
    (-180 * D, -0.5, 180 * D, 0.5),
    (170 * D, -0.25, 190 * D, 0.25),
    (100 * D, 0.0, 260 * D, 0.75),
    (-260 * D, -0.75, -110 * D, 0.5),
    (0 * D, -1.25, 357.5 * D, 1.25),
    (179.5 * D, 0.125, 181 * D, 0.25),
    (-170 * D, -0.25, 185 * D, 0.5),
]
CON = [
    (-0.3, 0.6, 0.35, 0.9),
    (-0.02, 0.4, 0.03, 0.45),
    (0.1, 0.9, 0.5, 0.5),
    (-0.45, 0.35, 0.45, 0.75),
    (-0.6, 0.3, -0.1, 1.1),
]
SIZES = [(2, 2), (5, 4), (4, 1), (1, 3), (1, 1), (3, 7)]
LATS = [-90.0, -60.0, -33.25, 0.0, 0.125, 39.5, 60.0, 90.0]
LONS = [-180.0, -105.0, -0.25, 0.0, 77.5, 179.75, 180.0, 260.0]
PAIRS = [(25.0, 25.0), (30.0, 60.0), (60.0, 33.0), (-10.0, 45.0), (38.5, 38.5), (-30.0, -60.0),
         (-25.0, -25.0), (5.5, 50.25), (0.0, 50.0), (30.0, 0.0)]
UNKNOWN = ['UTM', 'TVM', 'OBL', 'OBM', 'SAT', 'XXX', 'merc', '']
WTYPES = {'f8': np.float64, 'f4': np.float32}


def rects(code, a):
    if code in CYLINDRICAL:
        return RECTS[:7] + CYL
    if code in CONIC:
        s = 1 if Plane(code, *a).n > 0 else -1
        return [(x0, s * y0, x1, s * y1) for x0, y0, x1, y1 in CON]
    return RECTS


def fits(plane, rect, size):
    (nx, ny), (x0, y0, x1, y1) = size, rect
    return all(plane.inside(x0 + (x1 - x0) * i / max(nx - 1, 1), y0 + (y1 - y0) * j / max(ny - 1, 1))
               for i in range(nx) for j in range(ny))


def angles(code):
    lons = LONS
    if code in CONIC:
        return [(a, lo, b) for a, b in PAIRS for lo in lons]
    if code in ('NPS', 'NOR'):
        return [(90.0, lo, 0.0) for lo in lons]
    if code in ('SPS', 'SOR'):
        return [(-90.0, lo, 0.0) for lo in lons]
    if code == 'MCD':
        return [(a, lo, 0.0) for a in (0.0, 1.0, 2.5) for lo in lons]
    if code in CYLINDRICAL:
        return [(a, lo, 0.0) for a in (0.0, 20.0, -45.0) for lo in lons]
    return [(a, lo, 0.0) for a in LATS for lo in lons]


def strings(code):
    """(proj string, angles of the equivalent plane) that the writer accepts."""
    out = []
    for lo in LONS:
        if code == 'STR':
            for la in LATS:
                out.append((f'+proj=stere +lat_0={la} +lon_0={lo}', (la, lo, 0.0)))
            for la in (90.0, -90.0):
                for k in ('+k_0=0.933', f'+lat_ts={math.copysign(60, la)}', f'+lat_ts={la}',
                          f'+lat_ts={math.copysign(12.5, la)} +x_0=500000 +y_0=-20000'):
                    out.append((f'+proj=stere +lat_0={la} +lon_0={lo} {k}', (la, lo, 0.0)))
            out.append((f'+proj=stere +lat_0=52.25 +lon_0={lo} +k=0.9999 +x_0=155000 +y_0=463000',
                        (52.25, lo, 0.0)))
        elif code in ('ORT', 'AED', 'LEA', 'GNO'):
            p = AZIMUTHAL[code]
            for la in [*LATS, 0.00002, -0.000035]:
                out.append((f'+proj={p} +lat_0={la} +lon_0={lo}', (la, lo, 0.0)))
            out.append((f'+proj={p} +lat_0=39.5 +lon_0={lo} +x_0=1e6 +y_0=2e5', (39.5, lo, 0.0)))
            out.append((f'+proj={p} +lat_0=39.5 +lon_0={lo / 1e7}', (39.5, lo / 1e7, 0.0)))
        elif code == 'LCC':
            for a, b in PAIRS:
                out.append((f'+proj=lcc +lat_1={a} +lat_2={b} +lon_0={lo}', (a, lo, b)))
                out.append((f'+proj=lcc +lat_1={a} +lat_2={b} +lat_0=40 +lon_0={lo} +x_0=3e6',
                            (a, lo, b)))
                if a == b:
                    out.append((f'+proj=lcc +lat_1={a} +lat_0={a} +lon_0={lo}', (a, lo, a)))
                    out.append((f'+proj=lcc +lat_1={a} +lat_0={a} +k_0=0.9996 +lon_0={lo}',
                                (a, lo, a)))
        elif code == 'MER':
            for k in ('', '+lat_ts=20', '+lat_ts=-45', '+k=0.75', '+k_0=1.25', '+x_0=1e6'):
                out.append((f'+proj=merc +lon_0={lo} {k}', (0.0, lo, 0.0)))
        elif code == 'CED':
            for k in ('', '+lat_ts=20', '+lat_ts=-45', '+lat_0=30', '+x_0=1e6 +y_0=-5e5'):
                out.append((f'+proj=eqc +lon_0={lo} {k}', (0.0, lo, 0.0)))
    return out


def writable():
    return ['STR', 'ORT', 'AED', 'LEA', 'GNO', 'LCC', 'MER', 'CED']


def plan(tier):
    codes = list(AZIMUTHAL) + list(CYLINDRICAL) + list(CONIC)
    units = [{'u': 'r', 'code': c, 'half': h, 'tier': tier} for c in codes for h in range(4)]
    units += [{'u': 'w', 'code': c, 'half': h, 'tier': tier} for c in writable()
              for h in range(4)]
    units += [{'u': 'ell'}, {'u': 'refuse'}, {'u': 'tm'}]
    return units


def run_unit(unit, rec):
    u = unit['u']
    deep = unit.get('tier') == 'thorough'
    if u == 'r':
        code = unit['code']
        for k, a in enumerate(angles(code)):
            if k % 4 != unit['half']:
                continue
            plane = Plane(code, *a)
            for m, rect in enumerate(rects(code, a)):
                for n, size in enumerate(SIZES):
                    if not fits(plane, rect, size):
                        continue
                    forms = [(en, lc) for en in '<>' for lc in ('w', 'p')]
                    if not deep:
                        if n != 1 and (k // 4 + m + n) % 3:
                            continue
                        forms = [forms[(k // 4 + m + n) % 4]]
                    for en, lc in forms:
                        rec.case({'k': 'r', 'code': code, 'a': a, 'rect': rect, 'size': size,
                                  'en': en, 'lc': lc})
    elif u == 'w':
        code = unit['code']
        for k, (s, a) in enumerate(strings(code)):
            if k % 4 != unit['half']:
                continue
            plane = Plane(code, *a)
            for m, rect in enumerate(rects(code, a)):
                for n, size in enumerate(SIZES):
                    if not fits(plane, rect, size):
                        continue
                    forms = [(mode, dt, lc, r) for mode, dts, lcs in
                             (('xy', ('f8', 'f4', 'i8'), ('w',)),
                              ('ll', ('f8', 'f4'), ('w', 'p')))
                             for dt in dts for lc in lcs
                             for r in (R, 6378137.0)]
                    if not deep:
                        j = k // 4 + m + n
                        if n != 1 and j % 4:
                            continue
                        forms = ([forms[j // 4 % len(forms)]] if n != 1 else
                                 [forms[j % 6], forms[6 + j % 8]])
                    for mode, dt, lc, r in forms:
                        rec.case({'k': 'w', 'code': code, 's': s, 'a': a, 'rect': rect,
                                  'size': size, 'mode': mode, 'dt': dt, 'lc': lc, 'R': r})
    elif u == 'ell':
        for code in writable():
            for s, a in strings(code):
                for rect in rects(code, a)[:4]:
                    if fits(Plane(code, *a), rect, (3, 3)):
                        for mode in ('xy', 'll'):
                            rec.case({'k': 'e', 'code': code, 's': s + ' +ellps=WGS84', 'a': a,
                                      'rect': rect, 'mode': mode})
        for code, s, a, rect in [
            ('STR', 'EPSG:3995', (90.0, 0.0, 0.0), RECTS[1]),
            ('STR', 'EPSG:3031', (-90.0, 0.0, 0.0), RECTS[1]),
            ('STR', 'EPSG:3411', (90.0, -45.0, 0.0), RECTS[2]),
            ('STR', 'EPSG:5041', (90.0, 0.0, 0.0), RECTS[2]),
            ('LCC', 'EPSG:2154', (49.0, 3.0, 44.0), CON[1]),
            ('CED', 'EPSG:4087', (0.0, 0.0, 0.0), RECTS[1]),
        ]:
            for mode in ('xy', 'll'):
                rec.case({'k': 'e', 'code': code, 's': s, 'a': a, 'rect': rect, 'mode': mode})
    elif u == 'refuse':
        for code in UNKNOWN:
            for en in '<>':
                rec.case({'k': 'x', 'code': code, 'en': en})
        for s in ('robin', 'moll', 'sinu', 'aea +lat_1=20 +lat_2=50', 'cea', 'eqearth', 'poly',
                  'vandg', 'mill'):
            for mode in ('xy', 'll'):
                rec.case({'k': 'y', 's': f'+proj={s} +lon_0=0 +R=6371200', 'mode': mode})
        for how in ('string', 'crs', 'shape', 'xy2', 'll1'):
            rec.case({'k': 'z', 'how': how})
    else:
        for s in ('+proj=tmerc +lat_0=0 +lon_0=-105 +R=6371200', '+proj=utm +zone=13'):
            for mode in ('xy', 'll'):
                rec.case({'k': 't', 's': s, 'mode': mode})


def put(lon, lc):
    """A longitude in the convention asked for."""
    return wrap(lon) if lc == 'w' else lon % 360.0


def ends(plane, case, dlon=0.0):
    """Corner longitudes and latitudes in the convention asked for."""
    x0, y0, x1, y1 = case['rect']
    nx, ny = case['size']
    if nx == 1:
        x1 = x0
    if ny == 1:
        y1 = y0
    (lo0, la0), (lo1, la1) = plane.inverse(x0, y0), plane.inverse(x1, y1)
    lo0, lo1 = put(lo0, case['lc']), put(lo1, case['lc'])
    return lo0, la0, lo1, la1


def compare(got_lon, got_lat, nodes, plane, what):
    """Every node of a pair of arrays is where the plane says."""
    ny, nx = len(nodes), len(nodes[0])
    expect(got_lon.shape == (ny, nx) and got_lat.shape == (ny, nx),
           lambda: f'{what}: shapes {got_lon.shape} {got_lat.shape}, expected {(ny, nx)}')
    for j in range(ny):
        for i in range(nx):
            ref = plane.inverse(*nodes[j][i])
            got = float(got_lon[j, i]), float(got_lat[j, i])
            expect(all(map(math.isfinite, got)), lambda: f'{what}: node {j},{i} is {got}')
            d = distance(ref, got)
            expect(d <= TOL, lambda: f'{what}: node {j},{i} is {got}, expected {ref}: {d} away')


def single(v):
    return struct.unpack('<f', struct.pack('<f', v))[0]


def read_case(case, rec):
    plane = Plane(case['code'], *case['a'])
    nx, ny = case['size']
    lo0, la0, lo1, la1 = map(single, ends(plane, case))
    nav = (case['code'], la0, lo0, la1, lo1, *case['a'])
    raw = gemref.build(
        en=case['en'], file_type=3, source=6, row_keys=['GRID'], col_keys=gridread.KEYS,
        rows=[[1]], cols=[gridread.header({'lev': 500})],
        parts=[{'name': 'GRID', 'header': 2, 'type': gemref.GRID,
                'params': [{'name': 'GRID', 'bits': 16}]}],
        data={(0, 0, 0): ([nx, ny], gridread.pack(
            {'bits': 16, 'v': list(range(nx * ny))}, nx, ny, -9999.0)[0])},
        nav=gemref.navb(nav[0], nx, ny, *nav[1:]), anl=gemref.anlb(2, nav[1:5]),
    )
    path = rec.path()
    with open(path, 'wb') as h:
        h.write(raw)
    nodes = plane.nodes((lo0, la0), (lo1, la1), nx, ny)
    look(path, case, plane, nodes, rec)


def look(path, case, plane, nodes, rec):
    """The reader puts every node in its place, in all the forms it offers."""
    ny, nx = len(nodes), len(nodes[0])
    g = GempakGrid(path)
    compare(g.lon, g.lat, nodes, plane, 'reader')
    expect(g.x.shape == (nx,) and g.y.shape == (ny,), lambda: f'x {g.x.shape} y {g.y.shape}')
    out = g.gdxarray()
    expect(len(out) == 1, lambda: f'{len(out)} grids')
    da = out[0]
    expect(np.array_equal(da.lat.values, g.lat) and np.array_equal(da.lon.values, g.lon)
           and np.array_equal(da.x.values, g.x) and np.array_equal(da.y.values, g.y),
           'coordinates of the returned array differ from those of the file')
    vals = da.values.reshape(ny, nx)
    expect(all(abs(vals[j, i] - (j * nx + i)) < 0.25 for j in range(ny) for i in range(nx)),
           lambda: f'values {vals.tolist()}')
    # Projecting the geographic coordinates of a node gives its x and y.
    step = 2 * math.pi * R if case['code'] in CYLINDRICAL else None
    px, py = g.project_point(g.lon.ravel().tolist(), g.lat.ravel().tolist())
    for n in range(nx * ny):
        j, i = divmod(n, nx)
        dx, dy = px[n] - float(g.x[i]), py[n] - float(g.y[j])
        if step:
            dx = (dx + step / 2) % step - step / 2
        lim = 100.0 + 2e-5 * math.hypot(*nodes[j][i]) * R
        if case['code'] == 'GNO':
            lim *= 20
        expect(math.hypot(dx, dy) <= lim,
               lambda: f'node {j},{i}: projected {px[n]},{py[n]}; x, y {g.x[i]},{g.y[j]}')
    one = g.project_point(float(g.lon[0, 0]), float(g.lat[0, 0]))
    expect(math.dist(one, (px[0], py[0])) < 1.0, lambda: f'one point {one}')
    rec.step(nx * ny)
    rec.state([case['code'], case['a'], case['rect']])
    rec.outcome(f'{case["code"]} {"read" if case["k"] == "r" else "written"}')


def grid_of(case, plane, proj):
    """GridFile arguments placing the rectangle, by plane or geographic coordinates."""
    nx, ny = case['size']
    x0, y0, x1, y1 = case['rect']
    nodes = [[(x0 + (x1 - x0) * i / max(nx - 1, 1), y0 + (y1 - y0) * j / max(ny - 1, 1))
              for i in range(nx)] for j in range(ny)]
    if case['mode'] == 'll':
        pts = [[plane.inverse(*p) for p in row] for row in nodes]
        typ = WTYPES[case['dt']]
        lon = np.array([[put(p[0], case['lc']) for p in row] for row in pts], dtype=typ)
        lat = np.array([[p[1] for p in row] for row in pts], dtype=typ)
        return nodes, lon, lat
    # The writer's plane is this one scaled and shifted: two points of it tell how.
    base = (0.05, 0.05) if plane.kind != 'lcc' else (0.05, math.copysign(0.6, plane.n))
    p, q = base, (base[0] + 0.02, base[1] + 0.02)
    (u0, v0), (u1, v1) = proj(*plane.inverse(*p)), proj(*plane.inverse(*q))
    sx, sy = (u1 - u0) / (q[0] - p[0]), (v1 - v0) / (q[1] - p[1])
    x = np.array([u0 + sx * (n[0] - p[0]) for n in nodes[0]])
    y = np.array([v0 + sy * (row[0][1] - p[1]) for row in nodes])
    if case['dt'] == 'i8':
        return nodes, np.rint(x).astype('i8'), np.rint(y).astype('i8')
    return nodes, x.astype(case['dt']), y.astype(case['dt'])


def navigation(path):
    """Code, size, corners and angles in a file's navigation block."""
    with open(path, 'rb') as h:
        o = gemref.parse(h.read())
    at, _n = o.file_headers['NAVB']
    return [o.F(at), o.S(at + 1).strip()] + [o.F(at + k) for k in range(2, 13)]


def near(a, b):
    return abs(wrap(a - b)) <= 1e-4


def write_case(case, rec):
    plane = Plane(case['code'], *case['a'])
    proj = pyproj.Proj(f'{case["s"]} +R={case["R"]}')
    nodes, lon, lat = grid_of(case, plane, proj)
    nx, ny = case['size']
    keep = lon.copy(), lat.copy()
    f = GridFile(lon, lat, proj, use_xy=case['mode'] == 'xy')
    expect(np.array_equal(keep[0], lon) and np.array_equal(keep[1], lat),
           'the coordinates given were changed')
    f.add_grid(np.arange(nx * ny, dtype=float).reshape(ny, nx), 'TMPK', 'PRES', 500,
               '202001011200')
    path = rec.path()
    f.to_gempak(path)
    nav = navigation(path)
    expect(nav[1] == case['code'] and nav[4:6] == [nx, ny], lambda: f'navigation {nav}')
    # The file, read by GEMPAK's own rules, means the grid that was given.
    la0, lo0, la1, lo1, a1, a2, a3 = nav[6:]
    mine = Plane(nav[1], a1, a2, a3)
    there = mine.nodes((lo0, la0), (lo1, la1), nx, ny)
    lons = np.array([[mine.inverse(*p)[0] for p in row] for row in there])
    lats = np.array([[mine.inverse(*p)[1] for p in row] for row in there])
    compare(lons, lats, nodes, plane, 'file')
    look(path, case, plane, nodes, rec)


def ellipsoid_case(case, rec):
    """On an ellipsoid the projection, its angles and the corners are kept."""
    plane = Plane(case['code'], *case['a'])
    proj = pyproj.Proj(case['s'])
    x0, y0, x1, y1 = case['rect']
    if case['mode'] == 'll':
        pts = [[plane.inverse(x, y) for x in (x0, (x0 + x1) / 2, x1)]
               for y in (y0, (y0 + y1) / 2, y1)]
        lon = np.array([[wrap(p[0]) for p in row] for row in pts])
        lat = np.array([[p[1] for p in row] for row in pts])
        ref = [(lon[0, 0], lat[0, 0]), (lon[-1, -1], lat[-1, -1])]
    else:
        (u0, v0), (u1, v1) = (proj(*plane.inverse(x0, y0)), proj(*plane.inverse(x1, y1)))
        lon, lat = np.linspace(u0, u1, 3), np.linspace(v0, v1, 3)
        ref = [plane.inverse(x0, y0), plane.inverse(x1, y1)]
    f = GridFile(lon, lat, proj, use_xy=case['mode'] == 'xy')
    f.add_grid(np.zeros((3, 3)), 'TMPK', 'PRES', 500, '202001011200')
    path = rec.path()
    f.to_gempak(path)
    nav = navigation(path)
    expect(nav[1] == case['code'] and nav[4:6] == [3, 3], lambda: f'navigation {nav}')
    la0, lo0, la1, lo1, a1, a2, a3 = nav[6:]
    a = case['a']
    expect(near(a2, a[1]), lambda: f'central longitude {a2}, given {a[1]}')
    if case['code'] in AZIMUTHAL:
        expect(near(a1, a[0]), lambda: f'central latitude {a1}, given {a[0]}')
    if case['code'] == 'LCC':
        expect(sorted([round(a1, 3), round(a3, 3)]) == sorted([a[0], a[2]]),
               lambda: f'parallels {a1} {a3}')
    for got, want in zip([(lo0, la0), (lo1, la1)], ref, strict=True):
        expect(distance(got, want) <= TOL, lambda: f'corner {got}, given {want}')
    g = GempakGrid(path)
    for got, want in zip([(g.lon[0, 0], g.lat[0, 0]), (g.lon[-1, -1], g.lat[-1, -1])], ref,
                         strict=True):
        expect(distance(tuple(map(float, got)), want) <= TOL,
               lambda: f'corner read as {got}, given {want}')
    rec.step(2)
    rec.state([case['s'], case['rect']])
    rec.outcome('ellipsoid')


def refused(fn, types, what):
    try:
        r = fn()
    except types:
        return
    raise Violation(f'{what} accepted: {r}')


def small(s, mode):
    proj = pyproj.Proj(s)
    x, y = np.linspace(-2e5, 2e5, 3), np.linspace(1e5, 3e5, 3)
    if '+proj=utm' in s:
        x, y = x + 5e5, y + 4e6
    if mode == 'xy':
        return GridFile(x, y, proj, use_xy=True), *proj(*np.meshgrid(x, y), inverse=True)
    lon, lat = proj(*np.meshgrid(x, y), inverse=True)
    return GridFile(lon, lat, proj), lon, lat


def run_case(case, rec):
    k = case['k']
    if k == 'r':
        return read_case(case, rec)
    if k == 'w':
        return write_case(case, rec)
    if k == 'e':
        return ellipsoid_case(case, rec)
    if k == 'x':
        raw = gemref.build(
            en=case['en'], file_type=3, source=6, row_keys=['GRID'], col_keys=gridread.KEYS,
            rows=[[1]], cols=[], parts=[{'name': 'GRID', 'header': 2, 'type': gemref.GRID,
                                         'params': [{'name': 'GRID', 'bits': 16}]}],
            data={}, nav=gemref.navb(case['code'], 3, 3, 30, -100, 40, -90, 0, -95, 0),
            anl=gemref.anlb(2, (30, -100, 40, -90)),
        )
        with open(rec.path(), 'wb') as h:
            h.write(raw)
        refused(lambda: GempakGrid(rec.path()), (NotImplementedError, ValueError, KeyError),
                f'projection {case["code"]!r}')
    elif k == 'y':
        refused(lambda: small(case['s'], case['mode']), (NotImplementedError, ValueError),
                case['s'])
    elif k == 'z':
        p = pyproj.Proj('+proj=stere +lat_0=90 +lon_0=-105 +R=6371200')
        v, m = np.linspace(0, 1e5, 3), np.zeros((3, 3)) + 45.0
        args = {'string': (m, m, '+proj=stere +lat_0=90', False), 'crs': (m, m, p.crs, False),
                'shape': (m, m[:2], p, False), 'xy2': (m, m, p, True), 'll1': (v, v, p, False)}
        refused(lambda: GridFile(*args[case['how']]), (TypeError, ValueError), case['how'])
    else:
        try:
            f, lon, lat = small(case['s'], case['mode'])
        except NotImplementedError as e:
            raise Violation(f'documented as valid: {e}', key='transverse-mercator') from e
        f.add_grid(np.zeros((3, 3)), 'TMPK', 'PRES', 500, '202001011200')
        f.to_gempak(rec.path())
        g = GempakGrid(rec.path())
        for j in range(3):
            for i in range(3):
                d = distance((float(g.lon[j, i]), float(g.lat[j, i])), (lon[j, i], lat[j, i]))
                expect(d < 0.01, lambda: f'node {j},{i} is {d} degrees away')
    rec.step()
    rec.outcome(k)
