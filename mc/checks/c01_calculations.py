"""C01: upper-air formulas, and the interpolation of values missing in a profile."""

import itertools
import math

from gempakio import gemcalc

from mc.core import expect

PROPERTY = 'C01'
LEVEL = 'model_checking'
RULE = (
    'A case is one formula over a block of arguments, or one block of profiles over every pattern '
    'of missing values, given to the real function; results are compared with the formula in '
    'plain arithmetic, or with the log-pressure (hydrostatic) interpolation between the levels '
    'that have a value. Non-trivial: distinct block.'
)
ASSUMPTIONS = ['profiles have strictly decreasing pressures']
RD, G = 287.04, 9.80616
FLAGS = [-9999, -9999.0, 999.0]
TEMPS = [-120.0, -90.5, -60.0, -40.0, -20.0, -10.0, -2.5, 0.0, 0.1, 5.0, 12.3, 20.0, 27.0, 35.0, 48.0,
         80.0, 99.0]
PRES = [1080.0, 1013.25, 1000.0, 925.0, 850.0, 700.0, 500.0, 250.0, 100.0, 50.0, 10.0, 1.0]
PROFILE = [1000.0, 903.0, 700.0, 480.0, 101.0, 60.0, 20.0]
HUNDRED = [1000.0, 250.0, 100.0, 80.0, 60.0, 41.0, 20.0]
LOW = [1000.0, 950.0, 903.0, 850.0, 700.0, 520.0, 480.0]


def vapor(td):
    return None if td is None else 6.112 * math.exp(17.67 * td / (td + 243.5))


def mixing(td, p):
    if td is None or p is None:
        return None
    e = (1.001 + (p - 100.0) / 900.0 * 0.0034) * vapor(td)
    return None if e > 0.5 * p else 0.62197 * e / (p - e) * 1000.0


def virtual(t, td, p):
    if t is None or p is None:
        return None
    w = mixing(td, p)
    w = 0.0 if w is None else w / 1000.0
    return (t + 273.15) * (1 + w / 0.62197) / (1 + w)


def scale(tb, tt, db, dt, pb, pt):
    if None in (tb, tt, pb, pt):
        return None
    return RD / G * (virtual(tb, db, pb) + virtual(tt, dt, pt)) / 2


def height(z, pb, pt, h):
    if None in (z, pb, pt, h) or pb <= 0 or pt <= 0:
        return None
    return z + h * math.log(pb / pt)


def between(x, a, b, p, q, r):
    """Value at pressure p on the log-p line from a at q to b at r."""
    return None if a is None or b is None else a + (b - a) * math.log(p / q) / math.log(r / q)


def angle(a, b, p, q, r):
    """Directions on the log-p line, the short way round."""
    if a is None or b is None:
        return [None]
    f = math.log(p / q) / math.log(r / q)
    d = (b - a + 540) % 360 - 180
    ways = [d] if abs(abs(d) - 180) > 1e-9 else [180, -180]
    return [(a + w * f) % 360 for w in ways]


def plan(tier):
    t = tier == 'thorough'
    units = [{'u': 'formula', 'flag': k, 'p': p} for k in range(len(FLAGS)) for p in [None, *PRES]]
    units += [{'u': 'layer', 'flag': k, 'tb': tb} for k in range(len(FLAGS)) for tb in [None, *TEMPS]]
    units += [{'u': 'between', 'flag': k, 'a': a} for k in range(len(FLAGS)) for a in [None, *range(0, 361, 15)]]
    deep = 7 if t else 6
    units += [{'u': what, 'n': n, 'head': list(head), 'low': low, 'first': first}
              for what in ('fill', 'wind', 'fillp') for n in range(1, deep + 1)
              for head in itertools.product(range(4), repeat=min(n, 2))
              for low in (0, 1, 2) for first in (0, 1)]
    units += [{'u': what, 'n': n, 'low': low, 'first': first}
              for what in ('fillz', 'moist') for n in range(1, deep + 1) for low in (0, 1, 2)
              for first in (0, 1)]
    units += [{'u': what, 'n': n, 'head': [a, b], 'low': low, 'first': first, 'third': 1}
              for what in ('fillz', 'moist') for n in range(2, deep)
              for a in range(8) for b in range(8) for low in (0, 1, 2) for first in (0, 1)]
    return units


def bounds(tier):
    n = 7 if tier == 'thorough' else 6
    return {
        'formulas': f'{len(TEMPS)} temperatures and dewpoints, {len(PRES)} pressures, each also '
                    f'missing, {len(FLAGS)} missing data flags',
        'profiles': f'every pattern of missing values over 1-{n} levels, with and without the '
                    'pressure of the lowest, within, across and at 100 hPa',
    }


def run_unit(unit, rec):
    rec.case(unit)


def given(v, flag):
    return flag if v is None else v


def agree(got, want, flag, what, tol=1e-9):
    """A result is missing, or has the value."""
    if want is None:
        expect(got == flag, lambda: f'{what} = {got}, expected missing ({flag})')
    else:
        expect(got != flag and abs(float(got) - want) <= tol * max(1.0, abs(want)),
               lambda: f'{what} = {got}, expected {want}')


def run_case(case, rec):
    u = case['u']
    {'formula': formulas, 'layer': layers, 'between': directions}.get(u, profiles)(case, rec)
    rec.outcome(u)
    rec.state(case)


def formulas(case, rec):
    flag, p = FLAGS[case['flag']], case['p']
    f = [given(p, flag), flag]
    for td in [None, *TEMPS]:
        x = given(td, flag)
        agree(gemcalc.vapor_pressure(x, missing=flag), vapor(td), flag, f'vapor pressure of {td}')
        agree(gemcalc.mixing_ratio(x, *f), mixing(td, p), flag, f'mixing ratio of {td}, {p}')
        for t in [None, *TEMPS]:
            agree(gemcalc.virtual_temperature(given(t, flag), x, *f), virtual(t, td, p), flag,
                  f'virtual temperature of {t}, {td}, {p}')
        rec.step(len(TEMPS) + 3)
        if p is None and td is not None:  # at and around the pressure of twice the vapor
            q = 2 * vapor(td)
            for n in range(-40, 41):
                for r in (q * (1 + n / 4000), q * (1 + n / 200)):
                    e = (1.001 + (r - 100.0) / 900.0 * 0.0034) * vapor(td)
                    if abs(e - 0.5 * r) > 1e-9 * r:
                        agree(gemcalc.mixing_ratio(td, r, flag), mixing(td, r), flag,
                              f'mixing ratio of {td}, {r}')
                        rec.step()


def layers(case, rec):
    flag, tb = FLAGS[case['flag']], case['tb']
    some = [None, -60.0, -2.5, 20.0, 48.0]
    for tt, db, dt in itertools.product([None, *TEMPS], some, some):
        for pb, pt in ((1000.0, 850.0), (None, 850.0), (500.0, None), (60.0, 10.0)):
            h = scale(tb, tt, db, dt, pb, pt)
            got = gemcalc.scale_height(*(given(v, flag) for v in (tb, tt, db, dt, pb, pt)), flag)
            agree(got, h, flag, f'scale height of {tb}, {tt}, {db}, {dt}, {pb}, {pt}')
            rec.step()
    for z, pb, pt, h in itertools.product([None, 0.0, -30.0, 5500.0], [None, 0.0, -1.0, *PRES],
                                          [None, 0.0, -1.0, *PRES], [None, 7000.0, 8000.0]):
        got = gemcalc.moist_hydrostatic_height(*(given(v, flag) for v in (z, pb, pt, h)), flag)
        agree(got, height(z, pb, pt, h), flag, f'height over {z}, {pb}, {pt}, {h}')
        rec.step()


def directions(case, rec):
    flag, a = FLAGS[case['flag']], case['a']
    names = ('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT')
    for b in [None, *range(0, 361, 15)]:
        for q, r in ((1000.0, 850.0), (850.0, 1000.0), (60.0, 10.0)):
            for p in (q, r, (q * 2 + r) / 3, (q + r) / 2, q + 5 * (q - r), 3.0, 0.0):
                lo = dict(zip(names, (q, 12.5, None if b == 0 else -3.0, a, 7.0, 100.0), strict=True))
                up = dict(zip(names, (r, -2.5, -8.0, b, None if b == 15 else 20.0, 1500.0), strict=True))
                args = [{k: given(v, flag) for k, v in x.items()} for x in (lo, up)]
                what = f'interpolation to {p} between {lo} and {up}'
                ok = min(q, r) < p < max(q, r)
                try:
                    out = gemcalc.interp_parameters(p, *args, flag)
                except ValueError:
                    expect(not ok, lambda: f'{what} was refused')
                    continue
                finally:
                    rec.step()
                expect(ok, lambda: f'{what} was accepted')
                expect(set(out) == set(names) and out['PRES'] == p, lambda: f'{what}: {out}')
                for n in names[1:]:
                    if n == 'DRCT':
                        near(out[n], angle(a, b, p, q, r), flag, what)
                    else:
                        agree(out[n], between(n, lo[n], up[n], p, q, r), flag, f'{n}, {what}')
    for q, r, p in ((-5.0, 10.0, 5.0), (0.0, 10.0, 5.0), (10.0, -5.0, 5.0)):
        try:
            gemcalc.interp_parameters(p, {'PRES': q, 'TEMP': 1.0}, {'PRES': r, 'TEMP': 2.0}, flag)
        except ValueError:
            continue
        expect(False, f'pressures {q}, {r} were accepted')


def near(got, wants, flag, what):
    """A direction is missing, or one of those wanted, going round."""
    if wants == [None]:
        expect(got == flag, lambda: f'direction {got}, expected missing, {what}')
        return
    expect(got != flag and 0 <= got <= 360 and any(
        abs((got - w + 540) % 360 - 180) < 1e-6 for w in wants),
        lambda: f'direction {got}, expected {wants}, {what}')


def values(n, low, first):
    """A complete profile of n levels."""
    ps = (PROFILE, LOW, HUNDRED)[low][:n]
    s = {
        'PRES': list(ps),
        'TEMP': [20 - 9.0 * k + k * k for k in range(n)],
        'DWPT': [15 - 11.5 * k + k * k for k in range(n)],
        'DRCT': [(340.0 + 35 * k * k) % 360 for k in range(n)],
        'SPED': [3.0 + 4 * k + (k % 3) for k in range(n)],
        'HGHT': [round(60 + 8000 * math.log(1000 / p) * (1 - 0.01 * k)) * 1.0
                 for k, p in enumerate(ps)],
        'OTHER': [7.0 + k for k in range(n)],
    }
    if first:
        s['PRES'][0] = None
    return s


def profiles(case, rec):
    u, n = case['u'], case['n']
    full = values(n, case['low'], case['first'])
    one, two = {'fill': ('TEMP', 'DWPT'), 'wind': ('DRCT', 'SPED'), 'fillp': ('PRES', 'HGHT'),
                'fillz': ('HGHT', 'DWPT'), 'moist': ('HGHT', 'DWPT')}[u]
    third = 'third' in case
    for tail in itertools.product(range(8 if third else 4), repeat=n - len(case.get('head', ()))):
        have = (*case.get('head', ()), *tail)
        s = {k: list(v) for k, v in full.items()}
        for k, m in enumerate(have):
            if m & 1:
                s[one][k] = None
            if m & 2:
                s[two][k] = None
            if m & 4:
                s['TEMP'][k] = None
        for flag in (-9999.0, 99999.0):
            arg = {k: [given(x, flag) for x in v] for k, v in s.items()}
            what = f'{u} of {s}'
            {'fill': gemcalc.interp_missing_data, 'wind': gemcalc.interp_missing_data,
             'fillp': gemcalc.interp_logp_pressure, 'fillz': gemcalc.interp_logp_height,
             'moist': gemcalc.interp_moist_height}[u](arg, flag)
            rec.step()
            want = {'fill': gaps, 'wind': gaps, 'fillp': pressures, 'fillz': heights,
                    'moist': moist}[u](s)
            expect(set(arg) == set(s), lambda: f'{what}: parameters {set(arg)}')
            for name, vals in arg.items():
                for k, got in enumerate(vals):
                    w = want[name][k]
                    if name == 'DRCT':
                        near(got, [w], flag, f'{what} level {k}')
                    else:
                        agree(got, w, flag, f'{name}[{k}], {what}', 1e-8)


def gaps(s):
    """Temperature with dewpoint, wind direction with speed, and dewpoint filled in, in turn."""
    s = {k: list(v) for k, v in s.items()}
    p, n = s['PRES'], len(s['PRES'])
    for one, two in (('TEMP', 'DWPT'), ('DRCT', 'SPED'), ('DWPT', None)):
        whole = [k for k in range(n) if s[one][k] is not None]
        for k in range(1, n - 1):
            up = [j for j in whole if j > k]
            if s[one][k] is not None or not up or None in (p[k - 1], p[k], p[up[0]]):
                continue
            if two is None and p[k - 1] > 100 > p[up[0]]:
                continue  # dewpoint is not carried into the stratosphere
            for name in filter(None, (one, two)):
                a, b = s[name][k - 1], s[name][up[0]]
                f = angle if name == 'DRCT' else between
                v = (f(a, b, p[k], p[k - 1], p[up[0]])[0] if name == 'DRCT'
                     else f(name, a, b, p[k], p[k - 1], p[up[0]]))
                s[name][k] = v
    return s


def pressures(s):
    """Pressures on the log-p line between the nearest levels that have pressure and height."""
    s = {k: list(v) for k, v in s.items()}
    p, z = s['PRES'], s['HGHT']
    both = [k for k in range(len(p)) if p[k] is not None and z[k] is not None]
    for lo, up in itertools.pairwise(both):
        for k in range(lo + 1, up):
            if z[k] is not None:
                p[k] = p[lo] * math.exp(math.log(p[up] / p[lo]) * (z[k] - z[lo]) / (z[up] - z[lo]))
    return s


def heights(s):
    """Heights on the log-p line between known ones, and hydrostatic above the last."""
    s = {k: list(v) for k, v in s.items()}
    p, z = s['PRES'], s['HGHT']
    known = [k for k in range(len(p)) if z[k] is not None]
    for lo, up in itertools.pairwise(known):
        if p[lo] is not None:
            for k in range(lo + 1, up):
                z[k] = between('HGHT', z[lo], z[up], p[k], p[lo], p[up])
    at = known[-1] if known else None
    for k in range(at + 1 if known else 0, len(p)):
        if at is not None:
            h = scale(s['TEMP'][at], s['TEMP'][k], s['DWPT'][at], s['DWPT'][k], p[at], p[k])
            z[k] = height(z[at], p[at], p[k], h)
        if z[k] is not None and s['TEMP'][k] is not None:
            at = k
    return s


def moist(s):
    """Hydrostatic heights between known ones, stretched to fit, and above the last."""
    s = {k: list(v) for k, v in s.items()}
    p, z, t, d = (s[k] for k in ('PRES', 'HGHT', 'TEMP', 'DWPT'))
    n = len(p)
    known = [k for k in range(n) if None not in (p[k], z[k], t[k])]
    for lo, up in zip(known, [*known, None][1:], strict=True):
        end = n if up is None else up + 1
        warm = [k for k in range(lo, end) if t[k] is not None]
        thick = [scale(t[a], t[b], d[a], d[b], p[a], p[b]) * math.log(p[a] / p[b])
                 for a, b in itertools.pairwise(warm)]
        fit = 1.0 if up is None else (z[up] - z[lo]) / sum(thick)
        for j, k in enumerate(warm):
            if k not in (lo, up):
                z[k] = z[lo] + fit * sum(thick[:j])
    return s
