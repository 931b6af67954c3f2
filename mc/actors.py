"""Small programs, each using one file object of its own, in steps.

An actor is a generator function taking a scratch directory; it yields between steps and
returns a comparable account of everything it wrote or read.
"""

import os
import subprocess
import sys
import tempfile

import numpy as np
import pyproj

from gempakio import (GempakGrid, GempakSounding, GempakSurface, GridFile, SoundingFile,
                      SurfaceFile, VectorGraphicFile)
from gempakio.encode import vgf as EV
from mc import core, gridread, sndmerge, stnread, vgfwrite
from mc.checks.d01_cut_files import canon, GCOL, prm, TXT, UNM, xr_canon
from mc.core import digest
from mc.stnread import CHAR, PACK, REAL


def content(path):
    with open(path, 'rb') as h:
        return digest(h.read().hex())


def put(d, name, raw):
    path = os.path.join(d, name)
    with open(path, 'wb') as h:
        h.write(raw)
    return path


def grids(n, proj, nx, ny, params, times):
    def run(d):
        out = []
        f = GridFile(np.arange(nx) * 5e4, np.arange(ny) * 4e4 + 1e5,
                     pyproj.Proj(proj + ' +R=6371200'), use_xy=True)
        yield
        for k, (p, t) in enumerate(zip(params, times, strict=True)):
            v = np.arange(nx * ny, dtype=float).reshape(ny, nx) * (k + 1.5) + n
            v[k % ny, k % nx] = np.nan
            f.add_grid(v, p, 'PRES' if k else 'NONE', 500 - k, t)
            yield
        for k in range(2):
            path = os.path.join(d, f'g{n}{k}')
            f.to_gempak(path)
            out.append(content(path))
            yield
        return out
    return run


def soundings(n, params, at=None):
    def run(d):
        out = []
        f = SoundingFile(list(params))
        yield
        for k in range(2):
            m = n if at is None else at  # the same keys as program `at`, other values
            f.add_sounding({p: [900.0 - 100 * j + k + q + 3 * n for j in range(3 + k)]
                            for q, p in enumerate(params)}, 30 + m + k, -90 - k,
                           f'2020010{m + 1}120{k}', {'station_id': f'S{m}{k}'})
            yield
        path = os.path.join(d, f's{n}')
        f.to_gempak(path)
        out.append(content(path))
        yield
        return out
    return run


def surface(n, params, at=None):
    def run(d):
        out = []
        f = SurfaceFile(list(params))
        yield
        for k in range(2):
            m = n if at is None else at
            f.add_station({p: 10.0 * n + k + q for q, p in enumerate(params)}, 30 + m + k, -90 - k,
                          f'2020010{m + 1}120{k}', {'station_id': f'F{m}{k}'})
            yield
        path = os.path.join(d, f'f{n}')
        f.to_gempak(path)
        out.append(content(path))
        yield
        return out
    return run


def vgfile(n):
    def run(d):
        f = EV.VGFile()
        yield
        names = sorted(vgfwrite.OPTIONS)[n::2]
        for k, cls in enumerate(names):
            e = vgfwrite.build(cls, vgfwrite.sample_coords(cls, 3, k), {}, f'text {k}')
            f.add_element(e)
            if k % 3 == 2:
                yield
        path = os.path.join(d, f'v{n}')
        f.to_vgf(path)
        yield
        return [content(path), len(f.elements)]
    return run


def read_grids(n, make):
    def run(d):
        path = put(d, f'rg{n}', make())
        yield
        g = GempakGrid(path)
        yield
        out = [canon([tuple(map(repr, i)) for i in g.gdinfo()])]
        yield
        one = g.gdxarray(level=g.gdinfo()[-1].LEVEL1)
        out.append([xr_canon(a) for a in one])
        for a in one:
            a.values[...] = -1.0  # results belong to the caller
        one.clear()
        yield
        for _ in range(2):
            out.append([xr_canon(a) for a in g.gdxarray()])
            yield
        return out
    return run


def read_soundings(n, make):
    def run(d):
        path = put(d, f'rs{n}', make())
        yield
        g = GempakSounding(path)
        yield
        out = [canon([tuple(map(repr, i)) for i in g.sninfo()])]
        yield
        one = g.snxarray()
        out.append([xr_canon(a) for a in one])
        for ds in one:
            for v in ds.data_vars.values():
                v.values[...] = -1
            ds.attrs.clear()
        one.clear()
        yield
        out.append([xr_canon(a) for a in g.snxarray()])
        yield
        return out
    return run


def read_surface(n, make):
    def run(d):
        path = put(d, f'rf{n}', make())
        yield
        g = GempakSurface(path)
        yield
        out = [canon([tuple(map(repr, i)) for i in g.sfinfo()])]
        yield
        one = g.sfjson()
        out.append(canon(one))
        for o in one:
            o['values'].clear()
            o['properties'].clear()
        one.clear()
        yield
        out.append(canon(g.sfjson()))
        yield
        return out
    return run


def read_vgf(n, name):
    def shape(e):
        return [type(e).__name__, {k: repr(v) if not hasattr(v, '__dict__') else
                                   {a: repr(b) for a, b in vars(v).items()}
                                   for k, v in sorted(vars(e).items())
                                   if not isinstance(v, list)}]

    def run(d):
        path = put(d, f'rv{n}', (core.REPO / 'tests' / 'data' / name).read_bytes())
        yield
        f = VectorGraphicFile(path)
        yield
        out = [digest([shape(e) for e in f.elements]), canon(f.bounds)]
        yield
        one = f.filter_elements(vg_class=f.elements[-1].vg_class)
        out.append(digest([shape(e) for e in one]))
        one.clear()
        yield
        out.append(digest(f.to_json()))
        yield
        return out
    return run


def ref_grid(en, hl):
    return lambda: gridread.build({'size': [3, 2], 'en': en, 'hlen': hl,
                                   'cols': [GCOL[0], GCOL[1], None, GCOL[2], GCOL[3]]})[0]


def ref_stn(kind, typ, en, **k):
    def make():
        p = ('PRES', 'TMPC', 'DRCT') if kind == 'snd' else ('PMSL', 'TMPC')
        parts = [{'name': 'SNDT' if kind == 'snd' else 'SFDT', 'type': typ, 'params': prm(*p)}]
        spec = {'kind': kind, 'en': en, 'times': [0, None, 1], 'stations': [0, None, 1],
                'parts': parts, 'nlev': {'*': 3} if kind == 'snd' else {}}
        if k.get('txt'):
            parts.append({'name': 'SFTX', 'type': CHAR, 'params': prm('TEXT')})
            spec['text'] = {'SFTX': TXT}
        return stnread.build(spec)[0]
    return make


def ref_merge(en, n):
    def make():
        lv = UNM if n else {k: UNM[k] for k in ('TTAA', 'TTBB', 'PPBB', 'TTCC')}
        case = {'levels': lv, 'en': en, 'pack': n, 'texts': {'TXTA': f'TTAA {n}'}}
        return sndmerge.build(case, sndmerge.levels(case))
    return make


S = '+proj=stere +lat_0=90 +lon_0=-105'
L = '+proj=lcc +lat_1=30 +lat_2=60 +lon_0=-95'
ACTORS = {
    'grid writer A': grids(0, S, 4, 3, ('TMPK', 'UREL'), ('202001011200', '202001011200F006')),
    'grid writer B': grids(1, L, 3, 5, ('HGHT', 'VREL'), ('202102280600F012', '199912312300')),
    'sounding writer A': soundings(0, ('PRES', 'TEMP', 'HGHT')),
    'grid writer C': grids(2, L, 4, 3, ('TMPK', 'UREL'), ('202001011200', '202001011200F006')),
    'sounding writer C': soundings(2, ('PRES', 'TEMP', 'HGHT'), at=0),
    'surface writer C': surface(2, ('TMPC', 'DWPC'), at=0),
    'sounding writer B': soundings(1, ('PRES', 'TEMP', 'DWPT', 'DRCT')),
    'surface writer A': surface(0, ('TMPC', 'DWPC')),
    'surface writer B': surface(1, ('PMSL', 'SKNT', 'DRCT')),
    'VGF writer A': vgfile(0),
    'VGF writer B': vgfile(1),
    'grid reader A': read_grids(0, ref_grid('<', 2)),
    'grid reader B': read_grids(1, ref_grid('>', 128)),
    'sounding reader A': read_soundings(0, ref_stn('snd', REAL, '<')),
    'sounding reader B': read_soundings(1, ref_stn('snd', PACK, '>')),
    'sounding merger A': read_soundings(2, ref_merge('<', 0)),
    'sounding merger B': read_soundings(3, ref_merge('>', 1)),
    'surface reader A': read_surface(0, ref_stn('std', PACK, '<', txt=1)),
    'surface reader B': read_surface(1, ref_stn('clim', REAL, '>')),
    'surface reader C': read_surface(2, ref_stn('ship', REAL, '>')),
    'VGF reader A': read_vgf(0, 'misc.vgf'),
    'VGF reader B': read_vgf(1, 'sig_ccf.vgf'),
}


def steps(name):
    """Number of steps of an actor."""
    with tempfile.TemporaryDirectory() as d:
        return sum(1 for _ in ACTORS[name](d)) + 1


def alone(name):
    """(steps, account) of an actor that runs alone."""
    with tempfile.TemporaryDirectory() as d:
        gen, n = ACTORS[name](d), 0
        while True:
            n += 1
            try:
                next(gen)
            except StopIteration as e:
                return n, digest(e.value)


def fresh(names):
    """The same, each in a new interpreter of its own."""
    jobs = [(n, subprocess.Popen(
        [sys.executable, '-c', 'import sys, json; from mc import actors; '
         'print("ACCOUNT", json.dumps(actors.alone(sys.argv[1])))', n],
        cwd=core.VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
        for n in names]
    out = {}
    for n, p in jobs:
        so, se = p.communicate()
        lines = [x for x in so.splitlines() if x.startswith('ACCOUNT ')]
        out[n] = lines[0][8:] if lines else f'null {se[-300:]}'
    return out


