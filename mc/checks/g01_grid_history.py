"""G01: grid files, write then read, over writer histories."""

import itertools

from mc import grids
from mc.grids import G

PROPERTY = 'G01'
LEVEL = 'model_checking'
RULE = (
    'A case is one operation history on a real GridFile (additions that collide in all but one '
    'attribute, replacements, rejected additions, writes), checked after every write through an '
    'independent parser and through GempakGrid against a dictionary model. Non-trivial: distinct '
    'history.'
)
ALPHABET = [
    G(),
    G(v=('ramp', 5.0, -2.0)),  # replaces the first
    G(parm='tmpkx', v=('holes', 1.0, 3.0, 3, 1)),
    G(vc=None, lev=0, t='dt:202001311200', v=('ramp', 100.0, 0.5)),
    G(lev=501, v=('const', 7.25)),
    G(lev2=400, v=('ramp', -3.0, 0.25)),
    G(t='202001311200F000', v=('ramp', 40.0, 1.0)),
    G(t='202001310600F006', t2='202001310600F003', v=('ramp', 60.0, 1.0)),
    G(t2='202001311000', v=('ramp', 80.0, -1.0), layout='F'),
    ['write'],
    ['bad', 'month'],
    ['bad', 'mismatch'],
]
MORE = [
    G(parm='ABCDEFGHIJKL', v=('ramp', 20.0, 1.0)),
    G(parm='ABCDEFGHIJKM', v=('ramp', 30.0, 1.0), miss='-9999'),
    G(t='202001300000F036', v=('allmiss',)),
    ['bad', 'shape'],
]
SINGLE = [
    G(parm=p, vc=vc, lev=lev, lev2=lev2, t=t, t2=t2)
    for p in ('T', 'TMPK', 'TMPKX', 'abcdefgh', 'ABCDEFGHIJKL', 'PRES', 'HGHT', 'THTA')
    for vc in (None, *grids.VC)
    for lev, lev2 in ((0, None), (1000, 0), (2, 98765))
    for t, t2 in (('202001311200', None), ('202001311200F024', '202001311200F018'))
] + [
    G(parm='P' + str(k), lev=k, vc=vc, lev2=l2)
    for k in (0, 1, 9, 10, 500, 9999, 32767, 65536, 2**31 - 1)
    for vc in ('PRES', 'pres', 'Hght')
    for l2 in (None, 0, 1, 2**31 - 1)
] + [
    G(parm=p) for p in ('A B', 'ABC D', 'ABCD E', 'A  BCD  EF', 'ABCDEFG H', 'ABCDEFGH I',
                        'AB CDEF GHIJ', 'ABCD    EFGH', 'T1-2', '10%', 'ÉTÉ'[1:2])
]


# times that differ in what the file does not hold
FINE = ['202001311200', 'dt:202001311200', 'dt:2020013112000.000001', 'dt:2020013112001',
        'dt:20200131120059.999999']


def plan(tier):
    al = ALPHABET + (MORE if tier == 'thorough' else [])
    depth = 4 if tier == 'thorough' else 3
    units = [{'u': 'hist', 'n': len(al), 'a': a, 'b': b, 'depth': depth}
             for a in range(len(al)) for b in range(len(al))]
    units += [{'u': 'single', 'lo': lo} for lo in range(0, len(SINGLE), 20)]
    units += [{'u': 'count', 'lo': lo} for lo in range(1, 140, 4)]
    units += [{'u': 'bads', 'k': k} for k in grids.BADS]
    units += [{'u': 'shape', 'nx': nx} for nx in range(1, 13)]
    units += [{'u': 'fine', 'a': a} for a in FINE]
    units += [{'u': 'masks', 'lo': lo} for lo in range(0, 64, 8)]
    units += [{'u': 'large', 'k': k} for k in range(3)]
    units += [{'u': 'orders', 'first': k} for k in range(6)]
    return units


def run_unit(unit, rec):
    u = unit['u']
    al = (ALPHABET + MORE)[: unit.get('n', 0)]
    if u == 'hist':
        a, b = unit['a'], unit['b']
        if b == 0:
            rec.case({'ops': [al[a]]})
        rec.case({'ops': [al[a], al[b]]})
        for d in range(3, unit['depth'] + 1):
            for tail in itertools.product(al, repeat=d - 2):
                rec.case({'ops': [al[a], al[b], *tail]})
    elif u == 'single':
        for op in SINGLE[unit['lo'] : unit['lo'] + 20]:
            rec.case({'ops': [op]})
    elif u == 'count':  # header and pointer blocks ending on and around 128-word boundaries
        for n in range(unit['lo'], unit['lo'] + 4):
            rec.case({'size': [3, 3], 'ops': [G(lev=k, v=('ramp', float(k), 1.0))
                                              for k in range(n)]})
    elif u == 'bads':
        k = unit['k']
        for seq in ([['bad', k], G()], [G(), ['bad', k]], [G(), ['write'], ['bad', k], ['write']],
                    [G(), ['bad', k], G(lev=1), ['bad', k], ['write']]):
            rec.case({'ops': seq})
    elif u == 'shape':
        for ny in range(1, 13):
            for k, lay in enumerate(('C', 'F', 'view', 'ro')):
                for typ in ('f8', 'f4', 'i4', 'i8'):
                    v = ('ramp', float(k), 1.0)
                    rec.case({'size': [unit['nx'], ny],
                              'ops': [G(v=v, layout=lay, type=typ), G(lev=2, v=('const', 3.0))]})
            rec.case({'size': [unit['nx'], ny], 'ops': [G(v=('holes', 0.0, 1.0, 2, 1))]})
    elif u == 'fine':
        for b in FINE:
            for c in (None, *FINE):
                rec.case({'ops': [
                    G(t=unit['a'], t2=c), G(t=b, t2=c, v=('ramp', 9.0, 1.0)), ['write'],
                    G(t=unit['a'], t2=c, lev=850, v=('const', 3.0)), G(t='202001311201', t2=c)]})
    elif u == 'masks':  # every mask of a 3 x 2 grid, in every type and layout
        for m in range(unit['lo'], unit['lo'] + 8):
            vals = [None if m >> k & 1 else 5.0 + 3 * k for k in range(6)]
            for typ in ('f8', 'f4', 'i4', 'i2', 'u1', '>f4'):
                for lay in ('C', 'F', 'view', 'ro'):
                    for miss in ('ma', *(('nan', '-9999') if 'f' in typ else ())):
                        rec.case({'size': [3, 2], 'ops': [
                            G(v=('cells', vals), type=typ, layout=lay, miss=miss)]})
    elif u == 'large':  # addresses beyond 16 bits, headers beyond 128 records
        size, n = (([180, 170], 8), ([3, 2], 600), ([3, 2], 1300))[unit['k']]
        rec.case({'size': size, 'ops': [G(lev=k, v=('ramp', float(k % 50), 1.0))
                                        for k in range(n)]})
    elif u == 'orders':  # every insertion order of six colliding grids
        six = ALPHABET[2:8]
        rest = [k for k in range(6) if k != unit['first']]
        for p in itertools.permutations(rest):
            rec.case({'ops': [six[unit['first']]] + [six[k] for k in p]})


def run_case(case, rec):
    grids.replay(case, rec)
