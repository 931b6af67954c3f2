"""Unmerged soundings: files laid out by the reference builder and what merging them must give.

The oracle is a statement about the merged profile, not a copy of the merging procedure: which
levels it must and may contain, which reported values each must carry, and what every value that
was not reported may be (the hypsometric height, or the value on the log-p line between the
nearest reported neighbours).
"""

from datetime import datetime
import math

import numpy as np

from gempakio import GempakSounding
from mc import gemref
from mc.core import Violation, expect

REAL, PACK, CHAR = gemref.REAL, gemref.REALPACK, gemref.CHARACTER
MISS = -9999.0
FULL = ('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT')
NAMES = {
    'TTAA': FULL, 'PPAA': ('PRES', 'DRCT', 'SPED'), 'TRPA': FULL[:5], 'MXWA': ('PRES', 'DRCT', 'SPED'),
    'TTBB': FULL[:3], 'PPBB': ('HGHT', 'DRCT', 'SPED'), 'TTCC': FULL, 'PPCC': ('PRES', 'DRCT', 'SPED'),
    'TRPC': FULL[:5], 'MXWC': ('PRES', 'DRCT', 'SPED'), 'TTDD': FULL[:3],
    'PPDD': ('HGHT', 'DRCT', 'SPED'),
}
PARTS = list(NAMES)
TEXTS = ['TXTA', 'TXTB', 'TXPB', 'TXTC']
# bits, scale, offset of packed storage (two decimals of pressure are enough for every level)
PACKING = {'PRES': (19, -2, -120000), 'TEMP': (11, -1, -1350), 'DWPT': (11, -1, -1350),
           'DRCT': (9, 0, 0), 'SPED': (14, -2, 0), 'HGHT': (18, 0, -120000)}
STATION = ('KOUN', 'X1', 723570, 3523, -9745, 362, 'OK', 'US')
SKEYS = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2']
G, RD = 9.80616, 287.04


def hgt(p):
    """Reported height of a pressure level."""
    return float(round(44330.0 * (1 - (p / 1005.0) ** 0.19)) if p > 100
                 else round(15800 + 6700 * math.log(100 / p)))


def obs(part, p, name):
    """Reported value of a parameter; parts disagree about the same level."""
    k = PARTS.index(part)
    z = hgt(abs(p)) / 1000
    w = round(abs(p) * 7) % 13
    if name == 'TEMP':
        return round(max(20 - 6.5 * z, -60.0) + 0.3 * w + 0.1 * k, 1)
    if name == 'DWPT':
        return round(max(20 - 6.5 * z, -60.0) - 2 - 0.7 * w - 0.1 * k, 1)
    if name == 'DRCT':
        return float((200 + 53 * w + 3 * k) % 360)
    if name == 'SPED':
        return float(5 + 3 * w + k % 5)
    return hgt(abs(p))


def elev(case):
    """Elevation of the station."""
    return case.get('elev', STATION[5])


def levels(case):
    """Rows of every part as {part: [{name: value or None}]}."""
    out = {}
    for part, lv in case['levels'].items():
        rows = []
        for i, c in enumerate(lv):
            row = {}
            for n in NAMES[part]:
                if n == 'PRES' or (part in ('PPBB', 'PPDD') and n == 'HGHT'):
                    row[n] = float(c)
                elif part in ('PPBB', 'PPDD') and c >= 0:
                    row[n] = obs(part, 37 + c / 10, n)
                elif part == 'TTAA' and i == 0 and n == 'HGHT':
                    row[n] = float(elev(case))
                else:
                    row[n] = obs(part, c, n)
            rows.append(row)
        out[part] = rows
    for part, i, n in case.get('miss', []):
        if part in out and i < len(out[part]) and n in out[part][i]:
            out[part][i][n] = None
    return out


def build(case, rows):
    """File bytes; case: levels, miss, en, pack, order, texts, z (names of PPxx)."""
    typ = PACK if case.get('pack') else REAL
    parts, data = [], {}
    names = dict(NAMES)
    for x in ('PPBB', 'PPDD'):
        if case.get('presname') and any(c < 0 for c in case['levels'].get(x, [])):
            names[x] = ('PRES', 'DRCT', 'SPED')
    order = list(PARTS)
    if case.get('partorder'):
        order = [order[k] for k in case['partorder']]
    for ip, part in enumerate(order):
        prm = [dict(zip(('name', 'bits', 'scale', 'offset'), (n, *PACKING[n]), strict=True))
               for n in names[part]]
        parts.append({'name': part, 'header': 1, 'type': typ, 'params': prm})
        if part not in rows:
            continue
        if typ == REAL:
            flag = case.get('missing', MISS)
            words = [flag if r[n] is None else r[n] for r in rows[part] for n in NAMES[part]]
        else:
            words = gemref.pack_real(
                [[None if r[n] is None else round((r[n]) / 10.0 ** PACKING[q][1]) - PACKING[q][2]
                  for n, q in zip(NAMES[part], names[part], strict=True)] for r in rows[part]], prm)
        data[0, 0, ip] = ([0], words)
    for k, t in enumerate(TEXTS):
        if 'texts' not in case:
            break
        ip = len(order) + k
        parts.append({'name': t, 'header': 1, 'type': CHAR,
                      'params': [{'name': 'TEXT', 'bits': 0}]})
        txt = case['texts'].get(t)
        if txt is not None:
            raw = txt.encode().ljust(-(-len(txt) // 4) * 4)
            data[0, 0, ip] = ([0], [raw[k : k + 4] for k in range(0, len(raw), 4)])
    st = [STATION[i] for i in (0, 2, 3, 4, 5, 6, 7, 1)]
    st[4] = elev(case)
    return gemref.build(
        en=case.get('en', '<'), file_type=2, source=4, row_keys=['DATE', 'TIME'], col_keys=SKEYS,
        rows=[[210131, 1200]], cols=[st], parts=parts, data=data, order=case.get('order'),
        missing_float=case.get('missing', MISS),
    )


def virtual(t, td, p):
    """Virtual temperature (K)."""
    if td is None:
        return t + 273.15
    e = (1.001 + (p - 100.0) / 900.0 * 0.0034) * 6.112 * math.exp(17.67 * td / (td + 243.5))
    if e > 0.5 * p:
        return t + 273.15
    w = 0.62197 * e / (p - e)
    return (t + 273.15) * (1 + w / 0.62197) / (1 + w)


class Spec:
    """What the merged profile must look like."""

    def __init__(self, case, rows):
        self.case, self.rows = case, rows
        self.z = {x: bool(rows.get(x)) and not any((r['HGHT'] or 0) < 0 for r in rows[x])
                  for x in ('PPBB', 'PPDD')}
        self.surface()
        self.temperature_levels()
        self.wind_levels()

    def get(self, *parts):
        return [(x, i, r) for x in parts for i, r in enumerate(self.rows.get(x, []))]

    def surface(self):
        """Pressure, temperatures and wind of the surface level; None where not reported."""
        tt = self.rows.get('TTAA', [])
        s = dict(tt[0]) if tt else dict.fromkeys(FULL)
        whole = [r['PRES'] for r in tt if None not in (r['PRES'], r['TEMP'], r['HGHT'])]
        if s['PRES'] is None or s['PRES'] > 1060 or (whole and s['PRES'] < whole[0]):
            s = dict.fromkeys(FULL)
        else:
            s['HGHT'] = float(elev(self.case))
        self.sfc_alt = set()
        b = self.rows.get('TTBB', [])
        if b and None not in (b[0]['PRES'], b[0]['TEMP']) and s['PRES'] in (None, b[0]['PRES']):
            s.update({k: b[0][k] for k in ('PRES', 'TEMP', 'DWPT')})
        w = self.rows.get('PPBB', [])
        if w and w[0]['HGHT'] is not None and w[0]['DRCT'] is not None:
            if self.z['PPBB']:
                if w[0]['HGHT'] == 0:
                    s.update({k: w[0][k] for k in ('DRCT', 'SPED')})
            elif s['PRES'] in (None, -w[0]['HGHT']):
                s.update({'PRES': -w[0]['HGHT'], 'DRCT': w[0]['DRCT'], 'SPED': w[0]['SPED']})
        self.sfc = s
        self.psfc = s['PRES']

    def inside(self, p):
        """Pressure of a level above the ground (or where that is, unknown)."""
        return p is not None and p > 0 and (self.psfc is None or p < self.psfc)

    def temperature_levels(self):
        """{p: reported values} of mandatory, tropopause and significant levels, and heights."""
        lev = {}
        self.mandatory, self.below = set(), {}
        for _x, i, r in self.get('TTAA', 'TTCC'):
            if (_x, i) == ('TTAA', 0):
                continue
            if self.inside(r['PRES']) and None not in (r['TEMP'], r['HGHT']):
                lev[r['PRES']] = dict(r)
                self.mandatory.add(r['PRES'])
            elif _x == 'TTAA' and self.psfc and r['PRES'] and r['PRES'] > self.psfc:
                self.below[r['PRES']] = dict(r)
        for _x, _i, r in self.get('PPAA', 'PPCC'):
            if self.rows.get('TTAA') and r['PRES'] in lev and lev[r['PRES']]['DRCT'] is None:
                lev[r['PRES']].update({k: r[k] for k in ('DRCT', 'SPED')})
        top = max(lev, default=None)
        self.optional = set()  # below the lowest mandatory level of an unknown surface
        self.tropopause = set()
        for x, _i, r in self.get('TRPA', 'TRPC', 'TTBB', 'TTDD'):
            p = r['PRES']
            if p is not None and p == self.psfc and r['TEMP'] is not None and (
                    self.sfc['TEMP'] is None):
                self.sfc.update({k: r[k] for k in ('TEMP', 'DWPT')})
            if not self.inside(p) or r['TEMP'] is None:
                continue
            if x in ('TRPA', 'TRPC'):
                self.tropopause.add(p)
            if p not in lev:
                lev[p] = dict(r)
                if self.psfc is None and (top is None or p > top):
                    self.optional.add(p)
            elif x in ('TRPA', 'TRPC') and lev[p].get('DRCT') is None:
                lev[p].update({k: r[k] for k in ('DRCT', 'SPED')})
        self.lev = lev
        # hypsometric heights of the levels without one
        seq = sorted(lev, reverse=True)
        at = {p: (lev[p]['TEMP'], lev[p].get('DWPT')) for p in seq}
        z = {p: lev[p]['HGHT'] for p in self.mandatory if p not in self.tropopause}
        if self.psfc is not None and self.sfc['TEMP'] is not None:
            seq.insert(0, self.psfc)
            at[self.psfc] = (self.sfc['TEMP'], self.sfc['DWPT'])
            if self.sfc['HGHT'] is not None:
                z[self.psfc] = self.sfc['HGHT']
        self.hyps = {}
        anchors = [p for p in seq if p in z]
        for a, b in zip(anchors, [*anchors[1:], None], strict=False):
            i = seq.index(a)
            j = seq.index(b) if b is not None else len(seq) - 1
            thick = [RD / G * (virtual(*at[seq[k]], seq[k]) + virtual(*at[seq[k + 1]], seq[k + 1]))
                     / 2 * math.log(seq[k] / seq[k + 1]) for k in range(i, j)]
            s = (z[b] - z[a]) / sum(thick) if b is not None else 1.0
            h = z[a]
            for k in range(i, j):
                h += thick[k - i] * s
                if seq[k + 1] not in z:
                    self.hyps[seq[k + 1]] = h
        self.z_of = {**z, **self.hyps}

    def wind_levels(self):
        """{p: winds} reported by pressure without a temperature, and winds reported by height."""
        self.wlev = {}
        self.woptional = set()
        for x, _i, r in self.get(*[x for x in ('PPBB', 'PPDD') if not self.z[x]], 'MXWA', 'MXWC'):
            p = r['HGHT' if x[0] == 'P' else 'PRES']
            p = None if p is None else abs(p)
            if p is None or r['DRCT'] is None or r['SPED'] is None or p == 0 or (
                    self.psfc is not None and p > self.psfc):
                continue
            if p == self.psfc:
                self.fill(self.sfc, r)
            elif p in self.lev:
                self.fill(self.lev[p], r)
            elif p not in self.wlev:
                self.wlev[p] = dict(r)
                if self.psfc is None and p > max(self.mandatory, default=0):
                    self.woptional.add(p)
        # height zero in the first place stands for the surface
        self.zwind = [r for x, i, r in self.get(*[x for x in ('PPBB', 'PPDD') if self.z[x]])
                      if r['HGHT'] is not None and not (x == 'PPBB' and i == 0 and r['HGHT'] == 0)]

    @staticmethod
    def fill(lev, r):
        if lev.get('DRCT') is None or lev.get('SPED') is None:
            lev.update({k: r[k] for k in ('DRCT', 'SPED')})


def close(a, b, rel=3e-5, tol=2e-3):
    return abs(a - b) <= tol + rel * abs(b)


def check(case, ds, spec):
    """Compare one merged sounding with its specification."""
    names = ['pres', 'hght', 'temp', 'dwpt', 'drct', 'sped']
    expect(set(ds.data_vars) == set(names) - {'pres'}, lambda: f'variables {list(ds.data_vars)}')
    got, flag = [], case.get('missing', MISS)
    cols = {n: (ds.pres.values if n == 'pres' else ds[n].values[0]) for n in names}
    for k in range(len(cols['pres'])):
        row = {}
        for n in names:
            v = float(cols[n][k])
            row[n.upper()] = None if math.isnan(v) or n == 'pres' and v == flag else v
        got.append(row)
    bad = [r for r in got if r['PRES'] is None]
    # Only the surface may have no pressure, besides winds by height outside the known heights.
    have = {}
    for r in got:
        if r['PRES'] is not None:
            p = r['PRES']
            expect(p > 0, lambda: f'level at pressure {p}')
            expect(all(not close(p, q, 1e-6, 1e-4) for q in have), lambda: f'level {p} twice')
            have[p] = r
    ps = [r['PRES'] for r in got if r['PRES'] is not None]
    expect(ps == sorted(ps, reverse=True), lambda: f'pressures not in order: {ps}')

    def at(p):
        for q, r in have.items():
            if close(q, p, 1e-6, 1e-3):
                return r
        return None

    sp = ds.attrs['station_pressure']
    sp = None if sp == flag or math.isnan(float(sp)) else float(sp)
    expect((sp is None) == (spec.psfc is None) and (sp is None or close(sp, spec.psfc)),
           lambda: f'station pressure {sp}, reported {spec.psfc}')
    known = set()  # pressures accounted for
    half = set()  # winds reported in part
    rep = {n: {} for n in ('TEMP', 'DWPT', 'DRCT', 'SPED')}

    def reported(p, r, values, keys):
        if 'SPED' in keys and (values.get('DRCT') is None) != (values.get('SPED') is None):
            half.add(p)
        for n in keys:
            w = values.get(n)
            if n in ('DRCT', 'SPED') and p in half:
                continue  # a wind reported in part is no wind
            if w is None:
                continue
            expect(r[n] is not None and close(r[n], w, 1e-6, 1e-3),
                   lambda: f'{n} at {p} is {r[n]}, reported {w}')
            if n in rep:
                rep[n][p] = w

    if spec.psfc is not None:
        r = at(spec.psfc)
        expect(r is not None, lambda: f'surface level {spec.psfc} lost')
        known.add(r['PRES'])
        reported(r['PRES'], r, spec.sfc, ('TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'))
    for p, v in spec.below.items():
        r = at(p)
        expect(r is not None, lambda: f'level {p} below the ground lost')
        known.add(r['PRES'])
        for n in FULL:
            expect((v[n] is None) == (r[n] is None) and (v[n] is None or close(r[n], v[n])),
                   lambda: f'{n} at {p} (below ground) is {r[n]}, reported {v[n]}')
    for p, v in spec.lev.items():
        r = at(p)
        if r is None and p in spec.optional:
            continue
        expect(r is not None, lambda: f'reported level {p} lost')
        known.add(r['PRES'])
        reported(r['PRES'], r, v, ('TEMP', 'DWPT', 'DRCT', 'SPED'))
        if p in spec.mandatory and p not in spec.tropopause:
            reported(r['PRES'], r, v, ('HGHT',))
        elif p in spec.hyps:
            want = spec.hyps[p]
            okay = [want] + ([v['HGHT']] if p in spec.mandatory else [])
            if not any(q in spec.optional for q in spec.lev):
                expect(r['HGHT'] is not None and any(close(r['HGHT'], w, 2e-5, 0.3) for w in okay),
                       lambda: f'height at {p} is {r["HGHT"]}, hydrostatic {want}')
    for p, v in spec.wlev.items():
        r = at(p)
        if r is None and p in spec.woptional:
            continue
        expect(r is not None, lambda: f'reported wind level {p} lost')
        known.add(r['PRES'])
        reported(r['PRES'], r, v, ('DRCT', 'SPED'))
    # winds by height
    zs = sorted((r['HGHT'], r) for r in got if r['HGHT'] is not None)
    # Winds by height start at the surface, or at the first level above it, and stop below
    # the first level without a height.
    usable = [r for r in got if r['PRES'] is not None and r['PRES'] not in
              [at(p)['PRES'] for p in spec.below if at(p)]]
    if spec.psfc is None or spec.sfc['HGHT'] is None:
        usable = [r for r in usable if spec.psfc is None or not close(r['PRES'], spec.psfc)]
    zrun = []
    for r in usable:
        if r['HGHT'] is None:
            break
        zrun.append(r['HGHT'])
    taken = []
    for w in spec.zwind:
        hit = [r for r in got if r['HGHT'] is not None and abs(r['HGHT'] - w['HGHT']) < 1.01]
        if any(abs(w['HGHT'] - t) < 2.5 for t in taken):
            continue
        taken.append(w['HGHT'])
        # the boundary itself is left open: a height within 1 m of it can be rounded either way
        if not zrun or not zrun[0] + 1.5 < w['HGHT'] < zrun[-1] - 1.5:
            for r in hit:
                if r['PRES'] is not None and r['DRCT'] is not None:
                    rep['DRCT'].setdefault(r['PRES'], r['DRCT'])
                    rep['SPED'].setdefault(r['PRES'], r['SPED'])
            continue
        expect(hit, lambda: f'wind reported at height {w["HGHT"]} lost')
        if None in (w['DRCT'], w['SPED']):
            if (w['DRCT'], w['SPED']) != (None, None):
                half.update(r['PRES'] for r in hit if r['PRES'] is not None)
            continue
        mine = [r for r in hit if r['PRES'] not in known]
        if len(hit) > 1 and mine:
            hit = mine
        r = hit[0]
        if r['PRES'] in rep['DRCT'] and r['PRES'] in rep['SPED']:
            continue  # the level has its own wind, checked above
        expect(len(hit) > 1 or (r['DRCT'] is not None and r['SPED'] is not None
                                and close(r['DRCT'], w['DRCT'], 1e-6, 1e-3)
                                and close(r['SPED'], w['SPED'], 1e-6, 1e-3)),
               lambda: f'wind at height {w["HGHT"]} is {r["DRCT"]}/{r["SPED"]}, reported '
                       f'{w["DRCT"]}/{w["SPED"]}')
        if r['DRCT'] is not None:
            rep['DRCT'][r['PRES']], rep['SPED'][r['PRES']] = r['DRCT'], r['SPED']
    # nothing else
    zset = [w['HGHT'] for w in spec.zwind]
    for p, r in have.items():
        if p in known:
            continue
        expect(r['HGHT'] is not None and any(close(r['HGHT'], z, 1e-6, 0.01) for z in zset)
               or any(close(p, q, 1e-6, 1e-3) for q in spec.optional),
               lambda: f'level {p} was never reported')
    for r in bad:
        expect(spec.psfc is None and len(bad) == 1 or r['HGHT'] is not None and r in bad,
               lambda: f'{len(bad)} levels without pressure')
    expect(len([r for r in bad if r['HGHT'] is None]) <= 1, 'several levels without pressure')
    interpolated(spec, ps, have, rep, known, half)


def interpolated(spec, ps, have, rep, known, half):
    """Values nobody reported lie on the log-p line between the nearest reported ones."""
    below = [p for p in ps if any(close(p, q, 1e-6, 1e-3) for q in spec.below)]
    seq = [p for p in ps if p not in below]
    first = 0 if spec.psfc is None else 1
    wz = {}
    for p in seq:
        if p in known and any(close(p, q, 1e-6, 1e-3) for q in (*spec.lev, *([spec.psfc] if spec.psfc else []))):
            if have[p]['HGHT'] is not None:
                wz[p] = have[p]['HGHT']
    hs = [have[p]['HGHT'] for p in seq if have[p]['HGHT'] is not None]
    expect(all(a < b for a, b in zip(hs, hs[1:])), lambda: f'heights not increasing: {hs}')
    for k, p in enumerate(seq):
        r = have[p]
        lo = [q for q in seq[:k] if q in wz]
        up = [q for q in seq[k + 1:] if q in wz]
        if p not in wz and lo and up and r['HGHT'] is not None:
            f = math.log(p / lo[-1]) / math.log(up[0] / lo[-1])
            want = wz[lo[-1]] + (wz[up[0]] - wz[lo[-1]]) * f
            expect(close(r['HGHT'], want, 2e-5, 0.3),
                   lambda: f'height at {p} is {r["HGHT"]}, between its neighbours {want}')
        if p not in wz and lo and up:
            expect(r['HGHT'] is not None, lambda: f'no height at {p}')
        for n in ('TEMP', 'DWPT', 'DRCT', 'SPED'):
            if p in rep[n]:
                continue
            if k < first:
                expect(r[n] is None or n in ('DRCT', 'SPED'),
                       lambda: f'{n} at the surface is {r[n]} but none was reported')
                continue
            if n in ('DRCT', 'SPED'):
                near = [q for q in seq if q in rep['DRCT'] or q in rep['SPED'] or q in half]
                a, b = [q for q in near if q > p][-1:], [q for q in near if q < p][:1]
                if p in half or half & {*a, *b}:
                    continue  # next to a wind reported in part
            lo = [q for q in seq[:k] if q in rep[n]]
            up = [q for q in seq[k + 1:] if q in rep[n]]
            if not lo or not up:
                expect(r[n] is None,
                       lambda: f'{n} at {p} is {r[n]} with nothing reported on one side')
                continue
            straddle = n == 'DWPT' and lo[-1] > 100 > up[0]
            if r[n] is None:
                expect(straddle, lambda: f'{n} at {p} not interpolated')
                continue
            f = math.log(p / lo[-1]) / math.log(up[0] / lo[-1])
            a, b = rep[n][lo[-1]], rep[n][up[0]]
            if n == 'DRCT':
                d = (b - a + 540) % 360 - 180
                want = (a + d * f) % 360
                err = abs((r[n] - want + 540) % 360 - 180)
                expect(err <= 0.02 or abs(abs(d) - 180) < 1e-3,
                       lambda: f'DRCT at {p} is {r[n]}, between its neighbours {want}')
            else:
                want = a + (b - a) * f
                expect(close(r[n], want, 3e-5, 0.01),
                       lambda: f'{n} at {p} is {r[n]}, between its neighbours {want}')


PLACES = [STATION, ('AAAA', '', 10010, -7045, 17990, 5, 'CA', 'XX'),
          ('KSGF', '', 724400, 3723, -9340, 387, 'MO', 'US')]
DAYS = [(210131, 1200), (210131, 0), (201231, 1800)]


def build_several(case):
    """A file of several soundings; case['grid'][i][j] is the sounding at time i, place j."""
    typ = PACK if case.get('pack') else REAL
    parts = [{'name': part, 'header': 1, 'type': typ, 'params': [
        dict(zip(('name', 'bits', 'scale', 'offset'), (n, *PACKING[n]), strict=True))
        for n in NAMES[part]]} for part in PARTS]
    parts += [{'name': t, 'header': 1, 'type': CHAR, 'params': [{'name': 'TEXT', 'bits': 0}]}
              for t in TEXTS]
    data = {}
    grid = case['grid']
    for i, line in enumerate(grid):
        for j, c in enumerate(line):
            if c is None:
                continue
            for part, rr in levels(c).items():
                ip = PARTS.index(part)
                if typ == REAL:
                    words = [MISS if r[n] is None else r[n] for r in rr for n in NAMES[part]]
                else:
                    words = gemref.pack_real(
                        [[None if r[n] is None else
                          round(r[n] / 10.0 ** PACKING[n][1]) - PACKING[n][2]
                          for n in NAMES[part]] for r in rr], parts[ip]['params'])
                data[i, j, ip] = ([0], words)
            for k, t in enumerate(TEXTS):
                if t in c.get('texts', {}):
                    raw = c['texts'][t].encode()
                    raw = raw.ljust(-(-len(raw) // 4) * 4)
                    data[i, j, len(PARTS) + k] = (
                        [0], [raw[m : m + 4] for m in range(0, len(raw), 4)])
    cols = []
    for j in range(len(grid[0])):
        st = [PLACES[j][i] for i in (0, 2, 3, 4, 5, 6, 7, 1)]
        st[4] = STATION[5]  # the profiles are those of one place
        cols.append(st)
    return gemref.build(
        en=case.get('en', '<'), file_type=2, source=4, row_keys=['DATE', 'TIME'], col_keys=SKEYS,
        rows=[list(DAYS[i]) for i in range(len(grid))], cols=cols, parts=parts, data=data,
        order=case.get('order'))


def run_several(case, rec):
    """Several soundings in a file: each merged from its own parts."""
    path = rec.path()
    with open(path, 'wb') as h:
        h.write(build_several(case))
    grid = case['grid']
    want = []
    for i, line in enumerate(grid):
        for j, c in enumerate(line):
            if c is None or not levels(c):
                continue
            d, t = DAYS[i]
            when = datetime(2000 + d // 10000, d // 100 % 100, d % 100, t // 100, t % 100)
            s = PLACES[j]
            want.append(((when, (f'{s[0]:<4}' + s[1]).strip(), s[2], s[3] / 100, s[4] / 100, STATION[5], s[6], s[7]),
                         c))
    g = GempakSounding(path)
    info = [tuple(x)[2:] for x in g.sninfo()]
    expect(sorted(info) == sorted(w for w, _c in want), lambda: f'listing {info}')
    rec.step(1 + len(want))

    def judge(ds, c):
        rows = levels(c)
        if case.get('pack'):
            rows = {k: [{n: v if v is None else
                         round(v / 10.0 ** PACKING[n][1]) * 10.0 ** PACKING[n][1]
                         for n, v in r.items()} for r in rr] for k, rr in rows.items()}
        check(c, ds, Spec(c, rows))
        texts = {k.lower(): v.strip() for k, v in c.get('texts', {}).items()}
        expect(ds.attrs.get('wmo_codes', {}) == texts, lambda: f'text {ds.attrs.get("wmo_codes")}')

    def ident(ds):
        a = ds.attrs
        return (ds.time.values[0].astype('datetime64[s]').astype(datetime), a['station_id'],
                a['station_number'], a['lat'], a['lon'], a['elevation'], a['state'], a['country'])

    out = g.snxarray()
    expect(len(out) == len(want), lambda: f'{len(out)} soundings, {len(want)} in the file')
    for ds, (w, c) in zip(out, want, strict=True):
        expect(ident(ds) == w, lambda: f'attributes {ident(ds)}, expected {w}')
        try:
            judge(ds, c)
        except Violation as v:
            raise Violation(f'{w[:2]}: {v.message}') from None
    for w, c in reversed(want):  # one at a time, on the same object
        one = g.snxarray(station_number=w[2], date_time=w[0])
        expect(len(one) == 1 and ident(one[0]) == w, lambda: f'selection of {w[:3]}')
        judge(one[0], c)
        rec.step()
    rec.outcome(f'{len(want)} soundings')
    rec.state(case['grid'])


def run(case, rec):
    """Build one file, read it, check the merged profile."""
    if 'grid' in case:
        return run_several(case, rec)
    rows = levels(case)
    raw = build(case, rows)
    path = rec.path()
    with open(path, 'wb') as h:
        h.write(raw)
    g = GempakSounding(path)
    texts = {k: v for k, v in case.get('texts', {}).items() if v is not None}
    info = [tuple(x)[2:] for x in g.sninfo()]
    ident = (datetime(2021, 1, 31, 12, 0), 'KOUNX1', 723570, 35.23, -97.45, elev(case), 'OK', 'US')
    rec.step(2)
    rec.state([sorted((k, len(v)) for k, v in rows.items()), case.get('miss'), case['levels']])
    if not rows and not texts:
        expect(info == [], lambda: f'listing {info} without any data')
        return
    expect(info == [ident], lambda: f'listing {info}')
    out = g.snxarray()
    if not rows:
        expect(out == [], 'a sounding without any level')
        return
    expect(len(out) == 1, lambda: f'{len(out)} soundings')
    ds = out[0]
    a = ds.attrs
    got = (ds.time.values[0].astype('datetime64[s]').astype(datetime), a['station_id'],
           a['station_number'], a['lat'], a['lon'], a['elevation'], a['state'], a['country'])
    expect(got == ident, lambda: f'attributes {got}')
    want = {k.lower(): v.strip() for k, v in texts.items()}
    expect(a.get('wmo_codes', {}) == want, lambda: f'text {a.get("wmo_codes")}, stored {want}')
    if case.get('pack'):
        rows = {k: [{n: v if v is None else round(v / 10.0 ** PACKING[n][1]) * 10.0 ** PACKING[n][1]
                     for n, v in r.items()} for r in rr] for k, rr in rows.items()}
    spec = Spec(case, rows)
    check(case, ds, spec)
    rec.outcome(f'{"surface" if spec.psfc else "no surface"}, '
                f'{min(len(ds.pres), 24) // 4 * 4}+ levels')
    if case.get('same'):  # byte order and storage are not visible
        other = dict(case, en='>' if case.get('en', '<') == '<' else '<')
        other.pop('same')
        with open(path, 'wb') as h:
            h.write(build(other, levels(other)))
        d2 = GempakSounding(path).snxarray()[0]
        expect(ds.identical(d2), 'the byte order changes the merged sounding')
        rec.step(2)


__all__ = ['run', 'PARTS', 'NAMES', 'np']
