"""V06: codes in VGF files carry the names GEMPAK's tables give them, in both directions."""

from mc import core
from mc import vgfref as R
from mc.core import expect

PROPERTY = 'V06'
LEVEL = 'model_checking'
RULE = (
    'A case is one code of one table, stored in a record by the reference layout model and read, '
    'or one named constant of the writer, written and read back. Non-trivial: distinct case.'
)

LINES = ('dotted solid short_dashed medium_dashed long_dash_short_dash long_dash '
         'long_dash_three_short_dash long_dash_dot long_dash_three_dot '
         'extra_long_dash_two_dot').split()
SPECIAL = ('ball_chain zigzag scallop pointed_arrow alt_angle_ticks filled_arrow box_circles '
           'two_x filled_circles line_fill_circle_line tick_marks line_x_line fancy_arrow '
           'fill_circle_x box_x line_circle_line line_caret_line1 line_caret_line2 sine_curve '
           'arrow_dashed fill_arrow_dash streamline double_line kink_line1 kink_line2 '
           'z_line').split()  # from 1
MARKERS = ('none plus_sign octagon triangle box small_x diamond up_arrow x_bar z_bar y '
           'box_diagonals asterisk hourglass star dot large_x filled_octagon filled_triangle '
           'filled_box filled_diamond filled_star minus_sign tropical_storm hurricane').split()
LISTS = 'county zone wfo state marine_county'.split()  # from 1
FRONT = ('stationary stationary_aloft warm warm_aloft cold cold_aloft occluded dryline '
         'intertropical convergence').split()
INTENSITY = ('unspecified weak_decreasing weak weak_increasing moderate_decreasing moderate '
             'moderate_increasing strong_decreasing strong strong_increasing').split()
CHARACTER = ('unspecified frontal_decreasing little_change area_increasing intertropical '
             'forming_suspected quasi_stationary with_waves diffuse position_doubtful').split()
BASIN = 'atlantic east_pacific central_pacific west_pacific'.split()
STORM = ('hurricane tropical_storm tropical_depression subtropical_storm '
         'subtropical_depression').split()
LEVELS = ('hurricane_warning hurricane_watch tropical_storm_warning '
          'tropical_storm_watch').split()
SEVERITY = 'tropical_storm hurricane'.split()
ADVISORY = 'watch warning'.split()
GEOGRAPHY = 'no_types islands water'.split()
CLASSES = ('header fronts watches lines symbols text winds every comsym products tracks sigmets '
           'circle marker lists met blank').split()
TYPES = dict(enumerate(
    'line front - circle weather_symbol watch_box watch_county wind_barb wind_arrow cloud_symbol '
    'icing_symbol pressure_tendency_symbol past_weather_symbol sky_cover special_symbol '
    'turbulence_symbol text justified_text marker special_line special_text file_header '
    'directional_arrow hash_mark combination_weather_symbol storm_track international_sigmet '
    'nonconvective_sigmet convective_sigmet convective_outlook airmet ccf watch_status lists '
    'volcano ash_cloud jet gfa tca tc_error_cone tc_track tc_break_point sgwx'.split(), 1))


def numbered(first, names):
    return {n: first + k for k, n in enumerate(names.split())}


# Named constants of the writer: table -> {name: code}
CONSTANTS = {
    'ColorCodes': numbered(1, (
        'PALE_PINK RED GREEN BLUE YELLOW CYAN MAGENTA BROWN CORAL APRICOT PINK DARK_PINK '
        'MEDIUM_PINK MEDIUM_PURPLE LIGHT_PURPLE VIOLET DARK_BLUE MEDIUM_BLUE LIGHT_BLUE '
        'BLUE_GREEN MEDIUM_GREEN LIGHT_GREEN GREEN_YELLOW LIGHT_YELLOW GOLD DARK_YELLOW ORANGE '
        'MEDIUM_RED MEDIUM_ORANGE LIGHT_ORANGE WHITE BLACK')),
    'FillCodes': {'NONE': 0, **numbered(2, (
        'SOLID DASHED DIAGONAL_LOW DIAGONAL_MED STAIRSTEP SQUARE DIAGONAL_HIGH'))},
    'FontCodes': {f + s: n + 10 * k for n, f in enumerate(('COURIER', 'HELVETICA', 'TIMES'), 1)
                  for k, s in enumerate(('', '_ITALIC', '_BOLD', '_ITALIC_BOLD'))},
    'FrontCodes': {
        **{f'{n}_FRONT{s}': 100 * t + 20 + c
           for n, t in (('STATIONARY', 0), ('WARM', 2), ('COLD', 4), ('OCCLUDED', 6))
           for s, c in (('', 0), ('_DEVELOPING', 5), ('_DISSIPATING', 8))},
        'DRYLINE': 720, 'TROUGH_AXIS_DASH': 820, 'TROUGH_AXIS_SOLID': 829, 'SQUALL': 940},
    'LineCodes': numbered(0, (
        'DOTTED SOLID SHORT_DASHED MEDIUM_DASHED LONG_DASH_SHORT_DASH LONG_DASH '
        'LONG_DASH_THREE_SHORT_DASHES LONG_DASH_DOT LONG_DASH_THREE_DOTS MEDIUM_DASH_DOT')),
    'MarkerCodes': numbered(1, (
        'PLUS_SIGN OCTAGON TRIANGLE BOX SMALL_X DIAMOND UP_ARROW X_WITH_TOP_BAR Z_WITH_BAR Y '
        'BOX_WITH_DIAGONALS ASTERISK HOURGLASS_X STAR DOT LARGE_X FILLED_OCTAGON '
        'FILLED_TRIANGLE FILLED_BOX FILLED_DIAMOND FILLED_STAR MINUS_SIGN TROPICAL_STORM '
        'HURRICANE')),
    'SpecialLineCodes': {n.upper(): k for k, n in enumerate(SPECIAL, 1)},
    'SpecialSymbolCodes': numbered(0, (
        'SQUARE_OUTLINE SQUARE_FILLED CIRCLE_OUTLINE CIRCLE_FILLED TRIANGLE_OUTLINE '
        'TRIANGLE_FILLED DIAMOND_OUTLINE DIAMOND_FILLED STAR_OUTLINE STAR_FILLED '
        'HIGH_PRESSURE_H_OUTLINE LOW_PRESSURE_L_OUTLINE HIGH_PRESSURE_H_FILLED '
        'LOW_PRESSURE_L_FILLED SINGLE_BRACKET BOTTOM_HALF_BRACKET TOP_HALF_BRACKET '
        'LEFT_ADJUSTED_VERTICAL_BAR RIGHT_ADJUSTED_VERTICAL_BAR BRACKET_WITH_ONE_DOT '
        'BRACKET_WITH_TWO_DOTS BRACKET_WITH_ONE_ASTERISK BRACKET_WITH_TWO_ASTERISKS '
        'BRACKET_WITH_ONE_TRIANGLE BRACKET_WITH_TWO_TRIANGLES '
        'TROPICAL_STORM_NORTHERN_HEMISPHERE HURRICANE_NORTHERN_HEMISPHERE '
        'TROPICAL_STORM_SOUTHERN_HEMISPHERE HURRICANE_SOUTHERN_HEMISPHERE '
        'TRIANGLE_WITH_ANTENNA SIDEWAYS_S SLASH STORM_CENTER TROPICAL_DEPRESSION '
        'TROPICAL_CYCLONE FLAME X_CROSS LOW_PRESSURE_X_CROSS_OUTLINE '
        'LOW_PRESSURE_X_CROSS_FILLED TROPICAL_STORM_NH TROPICAL_STORM_SH NUCLEAR_FALLOUT')),
    'SpecialTextCodes': numbered(0, (
        'GENERAL_TEXT LOW_PRESSURE_BOX HIGH_PRESSURE_BOX BOX_BORDER_NOFILL BOX_BORDER_FILLED '
        'BOX_NOBORDER_FILLED FREEZING_LEVEL LOW_LEVEL_TURBULENCE CLOUD_LEVEL '
        'HIGH_LEVEL_TURBULENCE UNDERLINED_TEXT_NOFILL UNDERLINED_TEXT_FILLED MID_LEVEL_ICING '
        'OVERLINED_TEXT_NOFILL OVERLINED_TEXT_FILLED MID_LEVEL_CLOUD FLIGHT_LEVEL')),
    'FontSizeCodes': {'TINY': 10, 'SMALL': 12, 'MEDIUM': 14, 'LARGE': 18, 'HUGE': 24,
                      'GIANT': 34},
}
# Sizes of text relative to the medium one
HARDWARE = {'TINY': 0.714, 'SMALL': 0.857, 'MEDIUM': 1.0, 'LARGE': 1.286, 'HUGE': 1.714,
            'GIANT': 2.429}

# Where each constant goes: (class of the writer, option, attribute read)
USES = {
    'ColorCodes': [('Line', 'color', 'major_color'), ('Front', 'minor_color', 'minor_color'),
                   ('SpecialText', 'edgecolor', 'line_color'),
                   ('SpecialText', 'facecolor', 'fill_color'),
                   ('SpecialText', 'text_color', 'text_color'),
                   ('Marker', 'color', 'major_color')],
    'FillCodes': [('Line', 'filled', 'filled'), ('SpecialLine', 'filled', 'filled')],
    'FontCodes': [('SpecialText', 'font', 'font')],
    'FrontCodes': [('Front', 'front_code', 'front_code')],
    'LineCodes': [('Line', 'line_type', 'line_type')],
    'MarkerCodes': [('Marker', 'symbol_code', 'symbol_code')],
    'SpecialLineCodes': [('SpecialLine', 'line_type', 'line_type')],
    'SpecialSymbolCodes': [('SpecialSymbol', 'symbol_code', 'symbol_code')],
    'SpecialTextCodes': [('SpecialText', 'text_type', 'text_type')],
    'FontSizeCodes': [('SpecialText', 'size', 'size')],
}


def fronts(code):
    return {'front_type': FRONT[code // 100], 'front_intensity': INTENSITY[code // 10 % 10],
            'front_character': CHARACTER[code % 10]}


def line(code):
    return {'line_modifier': code // 10, 'line_style': LINES[code % 10]}


def reading():
    """(kind, field, code, names expected)."""
    for c in range(100):
        for k in ('line', 'circle'):
            yield k, 'line_type', c, line(c)
    for c in range(1, 27):
        yield 'special_line', 'line_type', c, {'line_style': SPECIAL[c - 1]}
    for c in range(1000):
        yield 'front', 'front_code', c, fronts(c)
    for c in range(1, 6):
        yield 'list', 'list_type', c, {'list_type_name': LISTS[c - 1]}
    for c in range(25):
        yield 'list', 'marker_type', c, {'marker_name': MARKERS[c]}
        yield 'watch6', 'marker_type', c, {'marker_name': MARKERS[c]}
    for k in ('tc_error', 'tc_track', 'tc_break'):
        for c, n in enumerate(BASIN):
            yield k, 'basin', c, {'basin': n}
        for c, n in enumerate(STORM):
            yield k, 'storm_type', c, {'storm_type': n}
    for c, n in enumerate(LEVELS):
        yield 'tc_break', 'ww_level', c, {'ww_level': n}
    for a in range(2):
        for b in range(2):
            for c in range(3):
                yield 'tca', 'ww', [a, b, c], {
                    'severity': SEVERITY[a], 'advisory_type': ADVISORY[b],
                    'special_geography': GEOGRAPHY[c]}


def plan(tier):
    return [{'u': 'read', 'part': p} for p in range(8)] + [{'u': 'kinds'}] + [
        {'u': 'constants', 'table': t} for t in CONSTANTS]


def bounds(tier):
    return {'codes read': sum(1 for _ in reading()), 'record kinds': len(R.KINDS),
            'named constants': sum(map(len, CONSTANTS.values()))}


def run_unit(unit, rec):
    if unit['u'] == 'read':
        for kind, field, code, want in list(reading())[unit['part'] :: 8]:
            rec.case({'kind': kind, 'field': field, 'code': code, 'want': want})
    elif unit['u'] == 'kinds':
        for kind in R.KINDS:
            rec.case({'repr': kind})
    else:
        for name in CONSTANTS[unit['table']]:
            for k in range(len(USES[unit['table']])):
                rec.case({'table': unit['table'], 'name': name, 'use': k})
        rec.case({'table': unit['table']})


def read(rec, records):
    from gempakio import VectorGraphicFile

    p = rec.path('a.vgf')
    with open(p, 'wb') as f:
        f.write(records)
    rec.step()
    return list(VectorGraphicFile(p).elements)


def name_of(x):
    """A name reported as text or as a member of an enumeration."""
    return getattr(x, 'name', x)


def run_case(case, rec):
    if 'kind' in case:
        kind, field, code = case['kind'], case['field'], case['code']
        v = R.default(kind, 4)
        if field == 'ww':
            v['ww'] = [(*code, [(20.5, -90.25, 'A'), (21.5, -91.25, 'B')])]
        else:
            v[field] = str(code) if isinstance(v[field], str) else code
        got = read(rec, R.file_header() + R.build(kind, v))
        expect(len(got) == 1, lambda: f'{kind}: {len(got)} elements')
        e = got[0].ww[0] if field == 'ww' else got[0]
        if isinstance(e, dict):
            have = {k: name_of(e[k]) for k in case['want']}
        else:
            have = {k: name_of(getattr(e, k)) for k in case['want']}
        expect(have == case['want'], lambda: f'{kind} with {field} {code}: {have}, expected '
                                             f'{case["want"]}')
        rec.state([kind, field, code])
        rec.outcome(f'{kind} {field}')
    elif 'repr' in case:
        kind = case['repr']
        vclass, vtype = R.KINDS[kind][:2]
        got = read(rec, R.file_header() + R.build(kind, R.default(kind, 4)))
        expect(len(got) == 1, lambda: f'{kind}: {len(got)} elements')
        text = repr(got[0])
        names = f'[{CLASSES[vclass]}, {TYPES[vtype]}]'
        expect(names in text, lambda: f'{kind} shows as {text}, expected {names}')
        rec.outcome('shown')
    else:
        constant(case, rec)


def constant(case, rec):
    from gempakio.encode import vgf

    from mc import vgfwrite as W

    table = getattr(vgf, case['table'])
    want = CONSTANTS[case['table']]
    if 'name' not in case:
        have = [n for n in dir(table) if n.isupper()]
        expect(set(want) <= set(have), lambda: f'{case["table"]} has {have}')
        rec.outcome('names')
        return
    cls, option, attr = USES[case['table']][case['use']]
    name = case['name']
    code = getattr(table, name)
    value = want[name]
    if case['table'] == 'FontSizeCodes':
        expect(code.name == name and abs(code.hardware - HARDWARE[name]) < 1e-9,
               lambda: f'{name}: {code}')
        code, value = code.points, HARDWARE[name]
    opts = {option: code}
    if case['table'] == 'SpecialLineCodes' and name.startswith('KINK'):
        opts['stroke'] = 50
    f = vgf.VGFile()
    e = W.build(cls, W.sample_coords(cls), opts, 'text' if cls == 'SpecialText' else None)
    f.add_element(e)
    p = rec.path('c.vgf')
    f.to_vgf(p)
    with open(p, 'rb') as h:
        got = read(rec, h.read())
    expect(len(got) == 1, lambda: f'{len(got)} elements')
    x = getattr(got[0], attr)
    expect(abs(x - value) < 6e-4,
           lambda: f'{cls} with {option} {case["table"]}.{name}: {attr} {x}, expected {value}')
    names = {}
    if case['table'] == 'FrontCodes':
        names = fronts(value)
    elif case['table'] == 'LineCodes':
        names = line(value)
    elif case['table'] == 'SpecialLineCodes':
        names = {'line_style': SPECIAL[value - 1]}
    for k, n in names.items():
        expect(getattr(got[0], k) == n, lambda: f'{name}: {k} {getattr(got[0], k)}')
    rec.state([case['table'], name, cls, option])
    rec.outcome(case['table'])
