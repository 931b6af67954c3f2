"""Reference model of GEMPAK VGF records, written from vgstruct.h's layout.

Nothing here is imported from gempakio.  A kind describes one element type (and version): the
fixed fields in file order, and the coordinate or item arrays that follow.  `build` turns field
values into a record; `expected` gives the attributes a reader must report for it; `parse`
splits a file back into records.  All numbers are big-endian except where the format leaves
them in the byte order of a little-endian writer (marked '<').

Field: (attribute, format, digits)   attribute None = padding
  format 'i' int32, 'f' float32, 'Ns' text field, 'Nx' padding; digits = decimals reported
"""

import math
import struct

HEADER = struct.Struct('>BBBbBBBBiiii4f')
HEADER_NAMES = (
    'delete', 'vg_type', 'vg_class', 'filled', 'closed', 'smooth', 'version', 'group_type',
    'group_number', 'major_color', 'minor_color', 'record_size',
    'min_lat', 'min_lon', 'max_lat', 'max_lon',
)
HDR_SIZE = HEADER.size  # 40

TEXT_ATTRS = [
    ('rotation', 'f', 1), ('size', 'f', 3), ('font', 'i'), ('text_flag', 'i'), ('width', 'i'),
    ('align', 'i'), ('lat', 'f', 2), ('lon', 'f', 2), ('offset_x', 'i'), ('offset_y', 'i'),
]


def sptext(ren=None, little=()):
    """Fields of a special text block; ren maps names to attribute names (None = hidden)."""
    ren = ren or {}
    out = []
    for name, fmt, *nd in [
        ('rotation', 'f', 1), ('text_size', 'f', 3), ('text_type', 'i'),
        ('turbulence_symbol', 'i'), ('font', 'i'), ('text_flag', 'i'), ('width', 'i'),
        ('text_color', 'i'), ('line_color', 'i'), ('fill_color', 'i'), ('align', 'i'),
        ('lat', 'f', 2), ('lon', 'f', 2), ('offset_x', 'i'), ('offset_y', 'i'),
    ]:
        f = '<' + fmt if name in little else fmt
        out.append((ren.get(name, name), f, *nd))
    return out


LINE = [
    ('number_points', 'n'), ('line_type', 'i'), ('line_type_hardware', 'i'), ('width', 'i'),
    ('line_width_hardware', 'i'),
]
SYMBOL = [
    ('number_symbols', 'i'), ('width', 'i'), ('size', 'f', 1), ('symbol_type', 'i'),
    ('symbol_code', 'fi'), ('lat', 'f', 2), ('lon', 'f', 2), ('offset_x', 'i'),
    ('offset_y', 'i'),
]
WIND = [
    ('number_wind', 'i'), ('width', 'i'), ('size', 'f', 1), ('wind_type', 'i'),
    ('head_size', 'f', 1), ('speed', 'f', 2), ('direction', 'f', 2), ('lat', 'f', 2),
    ('lon', 'f', 2),
]
SIGMET_A = [
    ('subtype', 'i'), ('number_points', 'n'), ('line_type', 'i'), ('line_width', 'i'),
    ('side_of_line', 'i'), ('area', '8s'), ('flight_info_region', '32s'), ('status', 'i'),
    ('distance', 'f', 4), ('message_id', '12s'), ('sequence_number', 'i'),
    ('start_time', '20s'), ('end_time', '20s'), ('remarks', '80s'), ('sonic', 'i'),
    ('phenomena', '32s'),
]
SIGMET_B = [
    ('phenomena2', '32s'), ('phenomena_name', '36s'), ('phenomena_lat', '8s'),
    ('phenomena_lon', '8s'), ('pressure', 'i'), ('max_wind', 'i'), ('free_text', '256s'),
]
SIGMET_C = [
    ('trend', '8s'), ('movement', '8s'), ('type_indicator', 'i'), ('type_time', '20s'),
    ('flight_level', 'i'), ('speed', 'i'), ('direction', '4s'), ('tops', '80s'),
    ('forecaster', '16s'),
]
VOLCANO = [
    ('name', '64s'), ('code', 'f', 1), ('size', 'f', 1), ('width', 'i'), ('number', '17s'),
    ('location', '17s'), ('area', '33s'), ('origin_station', '17s'), ('vaac', '33s'),
    ('wmo_id', '8s'), ('header_number', '9s'), ('elevation', '9s'), ('year', '9s'),
    ('advisory_number', '9s'), ('correction', '4s'), ('info_source', '256s'),
    ('additional_source', '256s'), ('aviation_color', '16s'), ('details', '256s'),
    ('obs_date', '16s'), ('obs_time', '16s'), ('obs_ash', '1024s'), ('forecast_6hr', '1024s'),
    ('forecast_12hr', '1024s'), ('forecast_18hr', '1024s'), ('remarks', '512s'),
    ('next_advisory', '128s'), ('forecaster', '64s'), (None, '3x'), ('lat', 'f', 2),
    ('lon', 'f', 2), ('offset_x', 'i'), ('offset_y', 'i'),
]
ASH = [
    ('subtype', 'i'), ('number_points', 'n'), ('distance', 'f', 2), ('forecast_hour', 'i'),
    ('line_type', 'i'), ('line_width', 'i'), ('side_of_line', 'i'), ('speed', 'f', 2),
    ('speeds', '16s'), ('direction', '4s'), ('flight_level1', '16s'), ('flight_level2', '16s'),
    *sptext({'lat': 'text_lat', 'lon': 'text_lon'}), ('text', '255s'), (None, '1x'),
]
CCF = [
    ('subtype', 'i'), ('number_points', 'n'), ('coverage', 'i'), ('storm_tops', 'i'),
    ('probability', 'i'), ('growth', 'i'), ('speed', 'f', 2), ('direction', 'f', 2),
    ('text_lat', '<f', 2), ('text_lon', '<f', 2), ('arrow_lat', '<f', 2),
    ('arrow_lon', '<f', 2), ('high_fill', '<i'), ('med_fill', '<i'), ('low_fill', '<i'),
    ('line_type', '<i'), ('arrow_size', '<f', 1),
    *sptext(
        {'text_color': None, 'line_color': None, 'lat': None, 'lon': None},
        little=('font', 'text_flag', 'width'),
    ),
    ('text', '255s'), (None, '1x'), ('text_layout', '256s'),
]
SGWX = [
    ('subtype', 'i'), ('number_points', 'n'), ('text_lat', 'f', 2), ('text_lon', 'f', 2),
    ('arrow_lat', 'f', 2), ('arrow_lon', 'f', 2), ('line_element', 'i'), ('line_type', 'i'),
    ('line_width', 'i'), ('arrow_size', 'f', 1), ('special_symbol', 'i'),
    ('weather_symbol', 'i'),
    *sptext({'rotation': 'text_rotation', 'width': 'text_width', 'align': 'text_align',
             'lat': None, 'lon': None}),
    ('text', '255s'), (None, '1x'),
]
TC = [
    ('storm_number', '5s'), ('issue_status', '2s'), ('basin', '5s'), ('advisory_number', '5s'),
    ('storm_name', '128s'), ('storm_type', '5s'), ('valid_time', '21s'), ('timezone', '4s'),
    ('forecast_period', '5s'),
]
TC_POINT = [
    ('lat', 'f', 2), ('lon', 'f', 2), ('advisory_date', '50s'), ('tau', '50s'),
    ('max_wind', '50s'), ('wind_gust', '50s'), ('minimum_pressure', '50s'),
    ('development_level', '50s'), ('development_label', '50s'), ('direction', '50s'),
    ('speed', '50s'), ('date_label', '50s'), ('storm_source', '50s'), (None, '2x'),
]
BREAK_POINT = [('lat', 'f', 2), ('lon', 'f', 2), ('name', '256s')]
JET_LINE = [
    ('line_color', 'i'), ('number_points', 'n'), ('line_type', 'i'), ('stroke', 'i'),
    ('direction', 'i'), ('size', 'f', 1), ('width', 'i'),
]
JET_HASH = [
    ('wind_color', 'i'), ('number_wind', 'i'), ('width', 'i'), ('size', 'f', 1),
    ('wind_type', 'i'), ('head_size', 'f', 1), ('speed', 'f', 2), ('direction', 'f', 2),
    ('lat', 'f', 2), ('lon', 'f', 2),
]
JET_BARB = [
    *JET_HASH, ('flight_level_color', 'i'),
    *sptext({'rotation': 'text_rotation', 'width': 'text_width', 'lat': 'text_lat',
             'lon': 'text_lon'}),
    ('text', '255s'), (None, '1x'),
]
TRACK = [
    ('track_type', 'i'), ('total_points', 'n'), ('initial_points', 'i'),
    ('initial_line_type', 'i'), ('extrapolated_line_type', 'i'), ('initial_mark_type', 'i'),
    ('extrapolated_mark_type', 'i'), ('line_width', 'i'), ('speed', 'f', 2),
    ('direction', 'f', 2), ('increment', 'i'),
]
_ANCHOR = [
    (f'anchor{k}_{n}', f, *nd)
    for k in (0, 1)
    for n, f, *nd in [('station', '8s'), ('lat', 'f', 2), ('lon', 'f', 2), ('distance', 'i'),
                      ('direction', '4s')]
]
_WMETA = [
    ('status', 'i'), ('number', 'i'), ('issue_time', '20s'), ('expire_time', '20s'),
    ('watch_type', 'i'), ('severity', 'i'), ('timezone', '4s'), ('max_hail', '8s'),
    ('max_wind', '8s'), ('max_tops', '8s'), ('mean_storm_direction', '8s'),
    ('mean_storm_speed', '8s'),
]
_WTAIL = [
    ('replacing', '24s'), ('forecaster', '64s'), ('filename', '128s'), ('issue_flag', 'i'),
    ('wsm_issue_time', '20s'), ('wsm_expire_time', '20s'), ('wsm_reference_direction', '32s'),
    ('wsm_recent_from_line', '128s'), ('wsm_md_number', '8s'), ('wsm_forecaster', '64s'),
]
_WCOUNT = [('number_counties', 'c'), ('plot_counties', 'i')]
_WHEAD = [('number_points', 'n'), ('style', 'i'), ('shape', 'i')]
_WMARK = [('marker_type', 'i'), ('marker_size', 'f', 1), ('marker_width', 'i')]


def _areas(n):
    return [('states', f'{n}s'), ('adjacent_areas', f'{n}s')]


WATCH = {
    0: [('number_points', 'n'), ('style', 'i'), ('watch_type', 'i'), ('number', 'i'),
        ('filename', '128s'), ('shape', 'i')],
    1: [*_WHEAD, *_WMETA, *_areas(20), *_WTAIL],
    2: [*_WHEAD, *_WMETA, *_areas(20), *_WTAIL, *_WCOUNT],
    3: [*_WHEAD, *_ANCHOR, *_WMETA, *_areas(20), *_WTAIL, *_WCOUNT],
    4: [*_WHEAD, *_ANCHOR, *_WMETA, *_areas(80), *_WTAIL, *_WCOUNT],
    5: [*_WHEAD, *_ANCHOR, *_WMETA, *_areas(80), *_WTAIL, *_WCOUNT],
    6: [*_WHEAD, *_WMARK, *_ANCHOR, *_WMETA, *_areas(80), *_WTAIL, *_WCOUNT],
}
COUNTY_MAX = {2: 200, 3: 200, 4: 200, 5: 400, 6: 400}

# kind -> (vg_class, vg_type, version, fields, tail)
KINDS = {
    'front': (1, 2, 0,
              [('number_points', 'n'), ('front_code', 'i'), ('pip_size', 'i'),
               ('pip_stroke', 'i'), ('pip_direction', 'i'), ('width', 'i'), ('label', '4s')],
              'points'),
    'line': (3, 1, 0, LINE, 'points'),
    'special_line': (3, 20, 0,
                     [('number_points', 'n'), ('line_type', 'i'), ('stroke', 'i'),
                      ('direction', 'i'), ('size', 'f', 1), ('width', 'i')], 'points'),
    'circle': (12, 4, 0, LINE, 'points'),
    'text': (5, 17, 0, TEXT_ATTRS, 'text'),
    'justified_text': (5, 18, 0, TEXT_ATTRS, 'text'),
    'special_text': (5, 21, 0,
                     [(('size' if f[0] == 'text_size' else f[0]), *f[1:]) for f in sptext()],
                     'text'),
    'list': (14, 34, 0,
             [('list_type', 'i'), ('marker_type', 'i'), ('marker_size', 'f', 1),
              ('marker_width', 'i'), ('number_items', 'n')], 'list'),
    'gfa': (15, 38, 0, [('number_blocks', 'b'), ('number_points', 'n')], 'gfa'),
    'jet': (15, 37, 0, None, 'jet'),
    'tca': (15, 39, 0, None, 'tca'),
    'tc_error': (15, 40, 0,
                 [*TC, ('line_color', 'i'), ('line_type', 'i'), ('fill_color', 'i'),
                  ('fill_type', 'i'), ('number_points', 'n')], 'points'),
    'tc_track': (15, 41, 0,
                 [*TC, ('line_color', 'i'), ('line_type', 'i'), ('number_points', 'n')],
                 'tc_track'),
    'tc_break': (15, 42, 0,
                 [*TC, ('line_color', 'i'), ('line_width', 'i'), ('ww_level', 'i'),
                  ('number_points', 'n')], 'tc_break'),
    'sgwx': (15, 43, 0, SGWX, 'padded:256:area_'),
    'ccf': (11, 32, 0, CCF, 'padded:100:'),
    'volcano': (11, 35, 0, VOLCANO, ''),
    'ash': (11, 36, 0, ASH, 'padded:50:'),
    'track0': (10, 26, 0, TRACK, 'track'),
    'track1': (10, 26, 0, [*TRACK, ('skip', 'i')], 'track'),
    'track2': (10, 26, 0,
               [*TRACK, ('skip', 'i'), ('font', 'i'), ('font_flag', 'i'),
                ('font_size', '<f', 1)], 'track'),
}
for _t, _n in [(8, 'barb'), (9, 'arrow'), (23, 'darrow'), (24, 'hash')]:
    KINDS[f'wind_{_n}'] = (6, _t, 0, WIND, '')
for _t, _n in [(5, 'weather'), (10, 'cloud'), (11, 'icing'), (12, 'tendency'), (13, 'past'),
               (14, 'sky'), (15, 'special'), (16, 'turbulence'), (19, 'marker'), (25, 'combo')]:
    KINDS[f'symbol_{_n}'] = (4, _t, 0, SYMBOL, '')
for _t, _n in [(27, 'intl'), (28, 'nonconv'), (29, 'conv'), (30, 'outlook'), (31, 'airmet')]:
    KINDS[f'sigmet_{_n}'] = (11, _t, 0, [*SIGMET_A, *SIGMET_C], 'points')
    KINDS[f'sigmet_{_n}_v1'] = (11, _t, 1, [*SIGMET_A, *SIGMET_B, *SIGMET_C], 'points')
for _v in WATCH:
    KINDS[f'watch{_v}'] = (2, 6, _v, WATCH[_v], 'watch')

# Attributes a reader reports for fields an older version does not store.
DEFAULTS = {
    'track0': {'skip': 0, 'font': 1, 'font_flag': 2, 'font_size': 1.0},
    'track1': {'font': 1, 'font_flag': 2, 'font_size': 1.0},
}
for _k in KINDS:
    if _k.startswith('sigmet') and not _k.endswith('_v1'):
        DEFAULTS[_k] = {'phenomena2': '', 'phenomena_name': '', 'phenomena_lat': '',
                        'phenomena_lon': '', 'pressure': -9999, 'max_wind': -9999,
                        'free_text': ''}

# Text whose leading and trailing blanks the reader may keep or drop.
EDGES = {('ash', 'text'), ('ccf', 'text_layout')}
CLOSES = {'line', 'special_line'}  # closed by the reader when the header says closed


def f32(x):
    """The float32 nearest to x, as a Python float."""
    return struct.unpack('>f', struct.pack('>f', x))[0]


def pack_field(fmt, value):
    """Bytes of one field."""
    if fmt.endswith('x'):
        return b'\x5a' * int(fmt[:-1])
    if fmt.endswith('s'):
        n = int(fmt[:-1])
        raw = value if isinstance(value, bytes) else value.encode()
        if len(raw) < n:
            raw += b'\x00' + b'\xffJ\xfeK' * n  # junk after the terminator, as in real files
        return raw[:n]
    end = '<' if fmt[0] == '<' else '>'
    code = fmt.lstrip('<')
    if code in ('i', 'n', 'c', 'b'):
        return struct.pack(end + 'i', value)
    if code in ('f', 'fi'):
        return struct.pack(end + 'f', value)
    raise ValueError(fmt)


def pack_fields(fields, values):
    """Bytes of consecutive fields; hidden fields take values['_hidden'] or 7."""
    out = b''
    for name, fmt, *_ in fields:
        out += pack_field(fmt, values.get('_hidden', 7) if name is None else values[name])
    return out


def floats(seq):
    """Big-endian float32 array."""
    return struct.pack(f'>{len(seq)}f', *seq)


def junk(n):
    """n bytes of unused storage."""
    return (b'\x41\x42\x43\x44' * (n // 4 + 1))[:n]


def tca_string(v):
    """Text of a tropical cyclone advisory record."""
    s = ''
    for tag, key in [
        ('stormNum', 'storm_number'), ('issueStatus', 'issue_status'), ('basin', 'basin'),
        ('advisoryNum', 'advisory_number'), ('stormName', 'storm_name'),
        ('stormType', 'storm_type'), ('validTime', 'valid_time'), ('timezone', 'timezone'),
        ('textLat', 'text_lat'), ('textLon', 'text_lon'), ('textFont', 'text_font'),
        ('textSize', 'text_size'), ('textWidth', 'text_width'),
    ]:
        s += f'<tca_{tag}>{v[key]}'
    s += f'<tca_wwNum>{len(v["ww"])}'
    for n, w in enumerate(v['ww']):
        s += f'<tca_tcawwStr_{n}>{w[0]}|{w[1]}|{w[2]}<tca_numBreakPts_{n}>{len(w[3])}'
        s += f'<tca_breakPts_{n}>' + '|'.join(f'{a}|{b}|{c}' for a, b, c in w[3])
    return s


def build(kind, v, **header):
    """Record bytes for an element. v maps attribute names to values; header overrides."""
    vclass, vtype, version, fields, tail = KINDS[kind]
    lat, lon = v.get('lat_'), v.get('lon_')
    if kind == 'jet':
        body = pack_fields(JET_LINE, v['line'])
        body += floats(lat) + floats(lon) + junk(8 * (500 - len(lat)))
        body += struct.pack('>i', len(v['barbs']))
        body += b''.join(pack_fields(JET_BARB, b) for b in v['barbs'])
        size = len(pack_fields(JET_BARB, SAMPLE_BARB))
        body += junk(size * (50 - len(v['barbs'])))
        body += struct.pack('>i', len(v['hashes']))
        body += b''.join(pack_fields(JET_HASH, b) for b in v['hashes'])
        body += junk(40 * (50 - len(v['hashes'])))
    elif kind == 'tca':
        body = tca_string(v).encode() + b'\x00'
    else:
        body = pack_fields(fields, v)
        if tail == 'points':
            body += floats(lat) + floats(lon)
        elif tail == 'text':
            body += (v['text'] if isinstance(v['text'], bytes) else v['text'].encode()) + b'\x00'
        elif tail.startswith('padded'):
            mx = int(tail.split(':')[1])
            body += floats(lat) + floats(lon) + junk(8 * (mx - len(lat)))
        elif tail == 'list':
            n = len(lat)
            for it in v['list_items']:
                body += pack_field('9s', it)
            body += junk(9 * (500 - n))
            body += floats(lat) + junk(4 * (500 - n)) + floats(lon) + junk(4 * (500 - n))
        elif tail == 'gfa':
            for b in v['blocks']:
                body += pack_field('1024s', b)
            body += floats(lat) + floats(lon)
        elif tail == 'tc_track':
            body += b''.join(pack_fields(TC_POINT, p) for p in v['track_points'])
        elif tail == 'tc_break':
            body += b''.join(pack_fields(BREAK_POINT, p) for p in v['breakpoints'])
        elif tail == 'track':
            for t in v['times']:
                body += pack_field('18s', t)
            n = len(lat)
            body += junk(18 * (50 - n)) + floats(lat) + floats(lon) + junk(8 * (50 - n))
        elif tail == 'watch':
            mx = COUNTY_MAX.get(version)
            if mx:
                n = len(v['county_lat'])
                if version in (2, 3, 4):
                    body += struct.pack(f'>{n}i', *v['county_status']) + junk(4 * (mx - n))
                if version in (4, 5, 6):
                    body += struct.pack(f'>{n}i', *v['county_fips']) + junk(4 * (mx - n))
                body += floats(v['county_lat']) + floats(v['county_lon'])
                body += junk(8 * (mx - n))
            body += floats(lat) + floats(lon)
    h = dict(
        delete=0, filled=0, closed=0, smooth=0, version=version, group_type=0, group_number=0,
        major_color=2, minor_color=3, min_lat=1.25, min_lon=-2.5, max_lat=3.75, max_lon=4.5,
    )
    h.update(header)
    h.update(vg_type=header.get('vg_type', vtype), vg_class=header.get('vg_class', vclass),
             record_size=header.get('record_size', HDR_SIZE + len(body)))
    return HEADER.pack(*(h[k] for k in HEADER_NAMES)) + body


def file_header(version='Version 7.4', notes='notes'):
    """The file header record."""
    body = pack_field('128s', version) + pack_field('256s', notes)
    h = dict.fromkeys(HEADER_NAMES, 0)
    h.update(vg_type=22, record_size=HDR_SIZE + len(body))
    return HEADER.pack(*(h[k] for k in HEADER_NAMES)) + body


def raw(vclass, vtype, body, **header):
    """A record of any class and type."""
    h = dict.fromkeys(HEADER_NAMES, 0)
    h.update(vg_class=vclass, vg_type=vtype, record_size=HDR_SIZE + len(body))
    h.update(header)
    return HEADER.pack(*(h[k] for k in HEADER_NAMES)) + body


def clean(s):
    """Text as a reader reports it: cut at the terminator, white space stripped."""
    if isinstance(s, bytes):
        s = s.decode()
    return s.split('\x00')[0].strip()


def expected(kind, v, **header):
    """Attributes a reader must report: {name: value}; coordinates as lists."""
    vclass, vtype, version, fields, tail = KINDS[kind]
    e = dict(DEFAULTS.get(kind, {}))
    e.update(vg_class=vclass, vg_type=vtype, version=version)
    lat, lon = v.get('lat_'), v.get('lon_')
    if kind == 'jet':
        e['line_attribute'] = {**visible(JET_LINE, v['line']), 'lat': lat, 'lon': lon}
        e['number_barbs'] = len(v['barbs'])
        e['barb_attributes'] = [visible(JET_BARB, b) for b in v['barbs']]
        e['number_hashes'] = len(v['hashes'])
        e['hash_attributes'] = [visible(JET_HASH, b) for b in v['hashes']]
        return e
    if kind == 'tca':
        for k in ('storm_number', 'issue_status', 'basin', 'advisory_number', 'storm_name',
                  'storm_type', 'valid_time', 'timezone', 'text_lat', 'text_lon', 'text_font',
                  'text_size', 'text_width'):
            e[k] = v[k]
        e['number_ww'] = len(v['ww'])
        e['ww'] = [
            {'severity': w[0], 'advisory_type': w[1], 'special_geography': w[2],
             'number_breaks': len(w[3]), 'break_points': [list(b) for b in w[3]]}
            for w in v['ww']
        ]
        return e
    e.update(visible(fields, v))
    for name in EDGES & {(kind, f[0]) for f in fields}:
        e[name[1]] = ('edges', e[name[1]])
    if kind.startswith('tc_'):
        e['basin'] = int(v['basin'])
        e['storm_type'] = int(v['storm_type'])
        y, m, d, hh, mm = (int(v['valid_time'][a : a + 2]) for a in (0, 2, 4, 7, 9))
        e['valid_time'] = ('utc', (2000 if y < 69 else 1900) + y, m, d, hh, mm)
    if tail == 'text':
        e['text'] = clean(v['text']).replace('$$', '\n').strip()
    if tail == 'list':
        e['list_items'] = [v_.split('\x00')[0] for v_ in v['list_items']]
    if tail == 'gfa':
        e['blocks'] = [clean(b) for b in v['blocks']]
    if tail == 'tc_track':
        e['track_points'] = [visible(TC_POINT, p) for p in v['track_points']]
        return e
    if tail == 'tc_break':
        e['breakpoints'] = [visible(BREAK_POINT, p) for p in v['breakpoints']]
        return e
    if tail == 'track':
        e['times'] = list(v['times'])
    if tail == 'watch':
        n = version
        e['county_status'] = list(v['county_status']) if n in (2, 3, 4) else []
        e['county_fips'] = list(v['county_fips']) if n in (4, 5, 6) else []
        e['county_lat'] = list(v['county_lat']) if n >= 2 else []
        e['county_lon'] = list(v['county_lon']) if n >= 2 else []
    if lat is not None:
        pre = tail.split(':')[2] if tail.startswith('padded') else ''
        la, lo = list(lat), list(lon)
        if (kind in CLOSES and header.get('closed')) or tail == 'watch':
            if len(la) > 2:
                la, lo = la + la[:1], lo + lo[:1]
        if kind == 'special_line' and v['direction'] == -1:
            la, lo = la[::-1], lo[::-1]
        e[pre + 'lat'], e[pre + 'lon'] = la, lo
    return e


def visible(fields, v):
    """Attributes of fixed fields as a reader reports them."""
    out = {}
    for name, fmt, *nd in fields:
        if name is None:
            continue
        x = v[name]
        if fmt.endswith('s'):
            x = clean(x)
        elif fmt == 'fi':
            x = int(x)
        elif nd:
            x = ('~', x, nd[0])
        out[name] = x
    return out


def same(got, want):
    """Does a reported value equal the expected one (floats to the reported decimals)?"""
    if isinstance(want, tuple) and want[:1] == ('~',):
        tol = 0.5001 * 10.0 ** -want[2] + 4e-7 * abs(want[1])
        try:
            return abs(float(got) - want[1]) <= tol
        except (TypeError, ValueError):
            return False
    if isinstance(want, tuple) and want[:1] == ('edges',):
        return isinstance(got, str) and got.strip() == want[1]
    if isinstance(want, tuple) and want[:1] == ('utc',):
        try:
            return (got.year, got.month, got.day, got.hour, got.minute) == want[1:] and (
                got.utcoffset() is not None and got.utcoffset().total_seconds() == 0
            )
        except AttributeError:
            return False
    if isinstance(want, bool) or isinstance(want, int):
        try:
            return got == want and not isinstance(got, str)
        except ValueError:
            return False
    if isinstance(want, float):
        try:
            return math.isclose(float(got), want, rel_tol=1e-6, abs_tol=1e-6)
        except (TypeError, ValueError):
            return False
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    if isinstance(want, dict):
        gd = got if isinstance(got, dict) else getattr(got, '__dict__', {})
        return all(k in gd and same(gd[k], w) for k, w in want.items())
    if isinstance(want, (list, tuple)):
        try:
            g = list(got)
        except TypeError:
            return False
        if len(g) != len(want):
            return False
        if want and all(isinstance(w, float) for w in want):
            # coordinates: reported to two decimals
            return all(same(a, ('~', b, 2)) for a, b in zip(g, want, strict=True))
        return all(same(a, b) for a, b in zip(g, want, strict=True))
    return False


def mismatches(element, want):
    """Names of attributes that differ from the expectation, with both values."""
    bad = []
    for k, w in want.items():
        if not hasattr(element, k):
            bad.append(f'{k} missing')
        elif not same(getattr(element, k), w):
            bad.append(f'{k}={getattr(element, k)!r} (stored {w!r})')
    return bad


def parse(data):
    """Split a file into records: [(header dict, body bytes)]."""
    out, p = [], 0
    while p < len(data):
        h = dict(zip(HEADER_NAMES, HEADER.unpack_from(data, p), strict=True))
        n = h['record_size']
        if n < HDR_SIZE or p + n > len(data):
            raise ValueError(f'record at {p} has size {n}, file has {len(data)} bytes')
        out.append((h, data[p + HDR_SIZE : p + n]))
        p += n
    return out


# ---- distinct default values ----------------------------------------------------------------

RANGED = {
    # fields whose value the reader interprets
    'front_code': 425, 'line_type': 3, 'list_type': 1, 'marker_type': 7, 'direction_sl': 1,
    'ww_level': 2, 'basin': '1', 'storm_type': '2', 'valid_time': '040914/2105', 'skip': 2,
    'font': 22, 'text_flag': 1, 'width': 5, 'pip_direction': 1,
}


def default_fields(fields, salt=0):
    """Pairwise different values for the fixed fields of a kind."""
    v = {}
    for i, (name, fmt, *nd) in enumerate(fields):
        if name is None:
            continue
        k = i + 1 + 37 * salt
        if name in RANGED:
            v[name] = RANGED[name]
        elif fmt.endswith('s'):
            n = int(fmt[:-1])
            v[name] = f'{name[:2]}{k}xyz'[: n - 1]
        elif fmt.lstrip('<') == 'f':
            d = nd[0] if nd else 4
            v[name] = round(k + 0.5 + (0.13 if d >= 2 else 0), min(d, 2)) * (-1 if i % 3 else 1)
        elif fmt == 'fi':
            v[name] = k % 40
        elif fmt in ('n', 'c', 'b'):
            v[name] = 0
        else:
            v[name] = k
    return v


def points(n, salt=0):
    """n distinct points with two decimals."""
    lat = [round(20.25 + 0.11 * i + 0.37 * salt, 2) for i in range(n)]
    lon = [round(-100.75 + 0.13 * i - 0.41 * salt, 2) for i in range(n)]
    return lat, lon


SAMPLE_BARB = default_fields(JET_BARB)


def default(kind, n=3, salt=0, m=2):
    """Default values of an element with n points (m sub-items where there are some)."""
    _c, _t, version, fields, tail = KINDS[kind]
    v = default_fields(fields or [], salt)
    lat, lon = points(n, salt)
    if kind == 'special_line':
        v['direction'] = 1
    for name, fmt, *_ in fields or []:
        if fmt == 'n':
            v[name] = n
        elif fmt == 'c':
            v[name] = m
        elif fmt == 'b':
            v[name] = m
    if kind == 'jet':
        v['line'] = default_fields(JET_LINE, salt)
        v['line']['number_points'] = n
        v['barbs'] = [default_fields(JET_BARB, salt + 1 + i) for i in range(m)]
        v['hashes'] = [default_fields(JET_HASH, salt + 5 + i) for i in range(m)]
    if kind == 'tca':
        v = dict(
            storm_number=salt + 4, issue_status='O', basin=1, advisory_number=salt + 17,
            storm_name=f'Name{salt}', storm_type=2, valid_time='040914/2105', timezone='AST',
            text_lat=25.5, text_lon=-80.25, text_font=2, text_size=1.5, text_width=3,
            ww=[
                (k % 2, (k // 2) % 2, k % 3,
                 [(20.5 + j + k, -90.25 - j, f'PT{k}_{j}') for j in range(2 + k % 2)])
                for k in range(m)
            ],
        )
        return v
    if tail == 'list':
        v['list_items'] = [f'IT{salt}{i}'[:8] for i in range(n)]
    if tail == 'gfa':
        v['blocks'] = [f'<gfa_{salt}>{i}' for i in range(m)]
    if tail == 'text':
        v['text'] = f'text {salt}'
    if tail == 'tc_track':
        v['track_points'] = [default_fields(TC_POINT, salt + i) for i in range(n)]
        return v
    if tail == 'tc_break':
        v['breakpoints'] = [default_fields(BREAK_POINT, salt + i) for i in range(n)]
        return v
    if tail == 'track':
        v['times'] = [f'0409{14 + i % 9}/2{i % 4}00' for i in range(n)]
    if tail == 'watch' and version in COUNTY_MAX:
        v['county_status'] = [i % 2 for i in range(m)]
        v['county_fips'] = [48001 + i for i in range(m)]
        v['county_lat'] = [30.5 + i for i in range(m)]
        v['county_lon'] = [-95.25 - i for i in range(m)]
    if tail == 'points' or tail.startswith('padded') or tail in ('list', 'gfa', 'jet', 'track',
                                                                 'watch'):
        v['lat_'], v['lon_'] = lat, lon
    return v


def unpack(kind, body):
    """Field values of a record (fixed fields and, where they follow, the coordinates)."""
    _c, _t, version, fields, tail = KINDS[kind]
    v, p = {}, 0
    for name, fmt, *_ in fields:
        if fmt[-1] in 'xs':
            n = int(fmt[:-1])
            x = body[p : p + n]
            if fmt[-1] == 's' and name is not None:
                v[name] = x.split(b'\x00')[0].decode('utf-8', 'ignore')
            p += n
        else:
            code = fmt.lstrip('<')
            (x,) = struct.unpack_from(
                ('<' if fmt[0] == '<' else '>') + ('f' if code in ('f', 'fi') else 'i'), body, p
            )
            if name is not None:
                v[name] = x
            p += 4
    npts = next((v[n] for n, f, *_ in fields if f == 'n'), None)
    if tail == 'watch' and version in COUNTY_MAX:
        m, mx = v['number_counties'], COUNTY_MAX[version]
        for key, code, on in [('county_status', 'i', version in (2, 3, 4)),
                              ('county_fips', 'i', version in (4, 5, 6))]:
            if on:
                v[key] = list(struct.unpack_from(f'>{m}{code}', body, p))
                p += 4 * mx
        for key in ('county_lat', 'county_lon'):
            v[key] = list(struct.unpack_from(f'>{m}f', body, p))
            p += 4 * m
        p += 8 * (mx - m)
    if tail == 'text':
        v['text'] = body[p:].split(b'\x00')[0]
    if tail in ('points', 'watch') or tail.startswith('padded'):
        v['lat_'] = list(struct.unpack_from(f'>{npts}f', body, p))
        v['lon_'] = list(struct.unpack_from(f'>{npts}f', body, p + 4 * npts))
        if tail != 'points':
            pass
        elif p + 8 * npts != len(body):
            raise ValueError(f'{kind}: {len(body)} bytes, layout has {p + 8 * npts}')
    return v


def kind_of(header):
    """Kind of a record by its header; None if the reference has no fixed layout for it."""
    for k, (c, t, ver, fields, tail) in KINDS.items():
        if (c, t) == (header['vg_class'], header['vg_type']) and fields is not None:
            if tail in ('track', 'list', 'gfa', 'tc_track', 'tc_break'):
                return None
            if (k.startswith('watch') or k.startswith('sigmet')) and ver != header['version']:
                continue
            return k
    return None
