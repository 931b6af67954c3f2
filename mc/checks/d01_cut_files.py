"""D01: GEMPAK data files cut off at any byte."""

import functools
import os

import numpy as np
import pyproj

from gempakio import GempakGrid, GempakSounding, GempakSurface, GridFile, SoundingFile, SurfaceFile
from mc import core, gemref, gridread, sndmerge, stnread
from mc.core import digest, expect
from mc.gridread import DEC, DIFF, GRIB, NONE
from mc.stnread import CHAR, PACK, REAL

PROPERTY = 'D01'
LEVEL = 'fault_enumeration'
CASE_SECONDS = 20
RULE = (
    'A case is one file cut after n bytes and read completely; the outcome is an exception or '
    'listings and data that are compared with those of the whole file. Every n of every file is '
    'a case (whole blocks of 32 cuts are recorded as one). Non-trivial: distinct cut.'
)
BLOCK = 32


def prm(*names, bits=12):
    return [{'name': n, 'bits': bits, 'scale': 0, 'offset': 0} for n in names]


TXT = ['METAR KABC 311153Z 21015G22KT 10SM CLR 25/17 A3001=', 'SPECI KDEF 311210Z 00000KT']
GCOL = [{'lev': 500, 'pk': NONE, 'v': [1.5, -2.25, 3.0, None, 5.0, 6.0]},
        {'lev': 600, 'pk': GRIB, 'bits': 9, 'v': [1, 2, 3, 4, 500, 0]},
        {'lev': 700, 'pk': DIFF, 'bits': 7, 'v': [1, 2, 3, 4, 5, 0]},
        {'lev': 800, 'pk': DEC, 'bits': 31, 'v': [1, 2, 30000, 4, 5, 0]}]


UNM = {'TTAA': [965, 850, 500, 100], 'PPAA': [925, 700], 'TRPA': [214], 'MXWA': [236],
       'TTBB': [965, 610], 'PPBB': [0, 600, 9900], 'TTCC': [70, 10], 'PPCC': [30], 'TRPC': [82],
       'MXWC': [57], 'TTDD': [90, 44], 'PPDD': [17400]}


def written(kind, path):
    """Files from gempakio's own writer."""
    if kind == 'grd':
        f = GridFile(np.arange(4) * 1e5, np.arange(3) * 1e5,
                     pyproj.Proj('+proj=stere +lat_0=90 +lon_0=-100 +R=6371200'), use_xy=True)
        for i, p in enumerate(('TMPK', 'UREL', 'VREL')):
            f.add_grid(np.arange(12.0).reshape(3, 4) * (i + 1) + 1, p, 'PRES', 500 + i,
                       '202001011200F006')
    elif kind == 'snd':
        f = SoundingFile(['PRES', 'TEMP', 'HGHT'])
        for i in range(3):
            f.add_sounding({'PRES': [1000, 900 - i, 800], 'TEMP': [10, 5 + i, 2],
                            'HGHT': [100, 1000, 2000 + i]}, 30 + i, -90, f'20200101120{i}',
                           {'station_id': f'AB{i}', 'station_number': 72300 + i})
    else:
        f = SurfaceFile(['TMPC', 'DWPC'])
        for i in range(3):
            f.add_station({'TMPC': 10 + i, 'DWPC': 5 - i}, 30 + i, -90, f'20200101120{i}',
                          {'station_id': f'AB{i}', 'station_number': 72300 + i})
    f.to_gempak(path)
    with open(path, 'rb') as h:
        return h.read()


def station(kind, typ, en, **k):
    n = {'snd': ('PRES', 'TMPC', 'DRCT')}.get(kind, ('PMSL', 'TMPC'))
    parts = [{'name': 'SNDT' if kind == 'snd' else 'SFDT', 'type': typ, 'params': prm(*n)}]
    if k.pop('txt', None):
        parts.append({'name': 'SNTX' if kind == 'snd' else 'SFTX', 'type': CHAR,
                      'params': prm('TEXT')})
        k['text'] = {parts[1]['name']: TXT}
    return stnread.build({'kind': kind, 'en': en, 'times': [0, 1, None],
                          'stations': [0, 1, None], 'parts': parts, 'nlev': {'*': 3}, **k})[0]




SAMPLES = {'grd': ['grib.grd', 'none.grd', 'diff.grd', 'dec.grd', 'little_endian.grd',
                   'big_endian.grd', 'multi_time.grd'],
           'snd': ['nzwp_no_ttcc.snd', 'top_sigw_hght_unmrg.snd', 'merged_nopack.snd',
                   'msn_hrrr_mrg.snd', 'dl10548_sigw_pres_unmrg_man_bgl.snd'],
           'sfc': ['climate.sfc', 'lwc_std_sfc.sfc', 'oun_sfc.gem']}


def sources(tier):
    out = [(k, 'written') for k in ('grd', 'snd', 'sfc')]
    for en in '<>':
        out += [('grd', f'ref:{en}:{h}') for h in (2, 128)]
        for typ in ('real', 'pack'):
            out += [('snd', f'stn:snd:{typ}:{en}:0')]
            out += [('snd', f'mrg:{typ}:{en}:{o}') for o in (0, 1)]
            out += [('sfc', f'stn:{k}:{typ}:{en}:1') for k in ('std', 'clim')]
        out += [('sfc', f'stn:ship:real:{en}:0')]
    out += [(k, 'sample:' + f) for k, fs in SAMPLES.items() for f in fs]
    return out


@functools.cache
def raw_of(kind, src):
    if src == 'written':
        import tempfile
        d = tempfile.mkdtemp(dir=SCRATCH[0])
        return written(kind, os.path.join(d, 'w'))
    tag, *a = src.split(':', 1)
    if tag == 'sample':
        return (core.REPO / 'tests' / 'data' / a[0]).read_bytes()
    a = a[0].split(':')
    if tag == 'ref':
        return gridread.build({'size': [3, 2], 'en': a[0], 'hlen': int(a[1]),
                               'cols': [GCOL[0], GCOL[1], None, GCOL[2], GCOL[3]]})[0]
    if tag == 'mrg':
        case = {'levels': UNM, 'en': a[1], 'pack': a[0] == 'pack',
                'texts': {t: f'{t} 31121 72357' for t in sndmerge.TEXTS[:3]}}
        if a[2] == '1':
            case['partorder'] = list(range(len(sndmerge.PARTS)))[::-1]
        return sndmerge.build(case, sndmerge.levels(case))
    if a[0] == 'ship':
        return stnread.build({'kind': 'ship', 'en': a[2], 'times': [0, None, 1, 2],
                              'stations': [0, None, 1, 2], 'nlev': {},
                              'parts': [{'name': 'SFDT', 'type': REAL,
                                         'params': prm('PMSL', 'TMPC')}]})[0]
    return station(a[0], REAL if a[1] == 'real' else PACK, a[2], txt=a[3] == '1')


SCRATCH = [None]


def canon(v):
    """A comparable form of returned data."""
    if isinstance(v, dict):
        return {str(k): canon(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, np.ma.MaskedArray):
        return [canon(v.filled(np.nan)), np.ma.getmaskarray(v).tolist()]
    if isinstance(v, np.ndarray):
        return repr(v.dtype) + str(v.shape) + v.tobytes().hex()
    return repr(v)


def xr_canon(a):
    d = {n: canon(np.asarray(c.values)) for n, c in a.coords.items()}
    if hasattr(a, 'data_vars'):
        return digest([d, {n: canon(np.asarray(v.values)) for n, v in a.data_vars.items()},
                       canon(a.attrs)])
    return digest([d, canon(a.values), str(a.name), canon(a.attrs)])


def read(kind, path):
    """Everything a file offers: (listing, data)."""
    if kind == 'grd':
        f = GempakGrid(path)
        return [repr(i) for i in f.gdinfo()], [xr_canon(a) for a in f.gdxarray()]
    if kind == 'snd':
        f = GempakSounding(path)
        return [repr(i) for i in f.sninfo()], [xr_canon(a) for a in f.snxarray()]
    f = GempakSurface(path)
    return [repr(i) for i in f.sfinfo()], [digest(canon(o)) for o in f.sfjson()]


WHOLE = {}


def whole(kind, src, path):
    if (kind, src) not in WHOLE:
        with open(path, 'wb') as h:
            h.write(raw_of(kind, src))
        WHOLE[kind, src] = read(kind, path)
    return WHOLE[kind, src]


def plan(tier):
    units = []
    for kind, src in sources(tier):
        units += [{'kind': kind, 'src': src, 'part': p, 't': tier == 'thorough'}
                  for p in range(8)]
    return units


def bounds(tier):
    return {'files': len(sources(tier)), 'cuts': 'every byte' if tier == 'thorough' else
            'every byte of files up to 8 kB; of larger ones the first 4 kB, then every 7th byte'}


def run_unit(unit, rec):
    kind, src = unit['kind'], unit['src']
    SCRATCH[0] = rec.scratch
    n = len(raw_of(kind, src))
    cuts = range(n)
    if n > 8192 and not unit['t']:
        cuts = [*range(4096), *range(4096, n, 7)]
    for k in range(unit['part'] * BLOCK, len(cuts), 8 * BLOCK):
        rec.case({'kind': kind, 'src': src, 'cuts': list(cuts[k : k + BLOCK])})


def in_order(part, all_of):
    """part is a subsequence of all_of."""
    it = iter(all_of)
    return all(any(x == y for y in it) for x in part)


def run_case(case, rec):
    kind, src = case['kind'], case['src']
    SCRATCH[0] = SCRATCH[0] or rec.scratch
    path = rec.path('c')
    info, data = whole(kind, src, path)
    raw = raw_of(kind, src)
    for n in case['cuts']:
        with open(path, 'wb') as h:
            h.write(raw[:n])
        rec.step()
        try:
            got = read(kind, path)
        except MemoryError:
            raise
        except Exception as e:
            rec.outcome(f'{kind}: {type(e).__name__}')
            continue
        same = got == (info, data)
        rec.outcome(f'{kind}: {"all of it" if same else "a part of it"}')
        rec.state([kind, src, len(got[0]), len(got[1])])
        expect(in_order(got[0], info),
               lambda: f'{src} cut at {n} of {len(raw)} lists {got[0]}, the file {info}')
        expect(in_order(got[1], data),
               lambda: f'{src} cut at {n} of {len(raw)}: returns data the file does not hold')
