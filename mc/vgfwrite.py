"""Reference model of the VGF writer's elements: options, their domains, what is stored."""

from mc import vgfref as R

COLORS = list(range(33))
FONTS = [1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33]
SIZES = [10, 12, 14, 18, 24, 34]
BADINT = [-1, -100, 2**31]

# class -> option -> (default, all documented values, undocumented values)
# Documented ranges are those of the constructors' docstrings.
LINEOPT = {
    'closed': (0, [0, 1], [-1, 2, 9]),
    'filled': (0, list(range(9)), [-1, 9, 100]),
    'smooth': (0, [0, 1, 2], [-1, 3, 20]),
    'width': (2, list(range(1, 11)), [0, -1, 11, 100]),
    'color': (4, COLORS, [-1, 33, 100]),
}
SYMOPT = {
    'color': (4, COLORS, [-1, 33, 100]),
    'width': (1, list(range(1, 11)), [0, -1, 11, 20]),
    'size': (1, [0.1, 0.5, 1, 1.5, 2.3, 9.9, 10], [0, 0.05, -1, 10.5, 20]),
    'offset_x': (0, [0, 1, -1, 7, 500, -500], []),
    'offset_y': (0, [0, 1, -1, 7, 500, -500], []),
}
OPTIONS = {
    'Line': {**LINEOPT, 'line_type': (1, list(range(100)), [-1, 100, 1000])},
    'SpecialLine': {
        **LINEOPT,
        'line_type': (5, list(range(1, 27)), [0, -1, 27, 100]),
        'stroke': (1, [1], []),
        'size': (1, [0.1, 0.5, 1, 1.5, 2.3, 9.9, 10], [0, 0.05, -1, 10.5, 20]),
        'direction': (1, [1, -1], [0, 2, -2]),
    },
    'Front': {
        'front_code': (420, list(range(1000)), [-1, 1000, 5000]),
        'major_color': (3, COLORS, [-1, 33, 100]),
        'minor_color': (None, [None, *COLORS], [-1, 33, 100]),
        'smooth': (2, [0, 1, 2], [-1, 3, 20]),
        'pip_size': (100, list(range(40, 501)), [39, 0, -40, 501, 1000]),
        'pip_stroke': (1, [1, 2, 3, 10, 100], [0, -1]),
        'pip_direction': (1, [1, -1], [0, 2, -2]),
    },
    'SpecialText': {
        'text_color': (8, COLORS, [-1, 33, 50]),
        'size': (12, SIZES, [0, 11, 13, 50, -12]),
        'text_type': (0, list(range(17)), [-1, 17, 20]),
        'font': (22, FONTS, [0, 4, 8, 10, 34, -1]),
        'align': (0, [-1, 0, 1], [-2, 2, 8]),
        'edgecolor': (None, [None, *COLORS], [-1, 33, 50]),
        'facecolor': (None, [None, *COLORS], [-1, 33, 50]),
        'rotation': (0, [0, 45, 90, 179.5, -30.5, 360], []),
        'offset_x': (0, [0, 1, -1, 7, 500, -500], []),
        'offset_y': (0, [0, 1, -1, 7, 500, -500], []),
        'turbulence_symbol': (0, list(range(11)), []),
    },
    'SpecialSymbol': {**SYMOPT, 'symbol_code': (2, list(range(42)), [-1, 42, 100])},
    'Marker': {**SYMOPT, 'symbol_code': (12, list(range(25)), [-1, 25, 100])},
}
# options with a setter of the same name on the element
SETTERS = {
    'Line': ['closed', 'filled', 'smooth', 'width', 'line_type'],
    'SpecialLine': ['closed', 'filled', 'smooth', 'width', 'line_type', 'size', 'direction'],
    'Front': ['front_code', 'major_color', 'minor_color', 'smooth', 'pip_size', 'pip_stroke',
              'pip_direction'],
    'SpecialText': ['text_color', 'size', 'text_type', 'font', 'align', 'edgecolor',
                    'facecolor', 'rotation', 'offset_x', 'offset_y', 'turbulence_symbol'],
    'SpecialSymbol': ['width', 'size', 'symbol_code', 'offset_x', 'offset_y'],
    'Marker': ['width', 'size', 'symbol_code', 'offset_x', 'offset_y'],
}
COMMON = {  # setters every element has
    'group_type': ([0, 1, 2, 8, 127, 255], [-1, -5]),
    'group_number': ([0, 1, 5, 65536, 2147483647], [-1, -9]),
    'major_color': (COLORS, [-1, 33, 100]),
    'minor_color': (COLORS, [-1, 33, 100]),
    'filled': (list(range(9)), [-1, 9]),
    'closed': ([0, 1], [-1, 2]),
    'smooth': ([0, 1, 2], [-1, 3]),
}
KIND = {'Line': 'line', 'SpecialLine': 'special_line', 'Front': 'front',
        'SpecialText': 'special_text', 'SpecialSymbol': 'symbol_special',
        'Marker': 'symbol_marker'}
REQUIRED = {
    'Line': ['color', 'line_type', 'closed'], 'SpecialLine': ['color', 'line_type', 'closed'],
    'Front': ['front_code', 'major_color'], 'SpecialText': ['text_color'],
    'SpecialSymbol': ['symbol_code', 'color'], 'Marker': ['symbol_code', 'color'],
}


def is_line(cls):
    """Is this element a sequence of points?"""
    return cls in ('Line', 'SpecialLine', 'Front')


def stroke_ok(cls, opts):
    """Documented stroke values: kinked lines need 25-75, others ignore it."""
    if cls != 'SpecialLine' or opts.get('line_type', 5) not in (24, 25):
        return True
    return opts.get('stroke', 1) in range(25, 76)


class Model:
    """State of one element as the documentation defines it."""

    def __init__(self, cls, coords, opts, text=None):
        self.cls, self.text = cls, text
        self.lat, self.lon = coords
        o = {k: d for k, (d, _v, _b) in OPTIONS[cls].items()}
        o.update(opts)
        self.h = dict(closed=0, filled=0, smooth=0, group_type=0, group_number=0)
        for k in ('closed', 'filled', 'smooth'):
            if k in o:
                self.h[k] = o.pop(k)
        if 'color' in o:
            c = o.pop('color')
            self.h.update(major_color=c, minor_color=c)
        if cls == 'Front':
            a, b = o.pop('major_color'), o.pop('minor_color')
            self.h.update(major_color=a, minor_color=a if b is None else b)
            o['width'] = o['front_code'] // 10 % 10
        if cls == 'SpecialText':
            c = o['text_color']
            self.h.update(major_color=c, minor_color=c)
            for k in ('edgecolor', 'facecolor'):
                o[k] = c if o[k] is None else o[k]
        if cls == 'SpecialLine' and o['line_type'] not in (24, 25):
            o['stroke'] = 1
        self.o = o

    def set(self, name, x):
        """An accepted assignment."""
        if name in self.h:
            self.h[name] = x
        else:
            self.o[name] = x
        if self.cls == 'Front' and name == 'front_code':
            self.o['width'] = x // 10 % 10
        if self.cls == 'Front' and name == 'width':
            c = self.o['front_code']
            self.o['front_code'] = c // 100 * 100 + x * 10 + c % 10
        if name == 'text_type':
            self.o['turbulence_symbol'] = 0

    def flip(self):
        """Reverse the direction."""
        k = 'pip_direction' if self.cls == 'Front' else 'direction'
        self.o[k] = -self.o[k]

    def expected(self):
        """What a reader reports for this element."""
        o = self.o
        e = {k: v for k, v in self.h.items()}
        e['delete'] = 0
        kind = KIND[self.cls]
        vclass, vtype = R.KINDS[kind][:2]
        e.update(vg_class=vclass, vg_type=vtype)
        lat, lon = self.lat, self.lon
        if is_line(self.cls):
            e.update(number_points=len(lat), min_lat=('~', min(lat), 2),
                     max_lat=('~', max(lat), 2), min_lon=('~', min(lon), 2),
                     max_lon=('~', max(lon), 2))
            la, lo = [float(x) for x in lat], [float(x) for x in lon]
            if self.cls != 'Front' and self.h['closed'] and len(la) > 2:
                la, lo = la + la[:1], lo + lo[:1]
            if self.cls == 'SpecialLine' and o['direction'] == -1:
                la, lo = la[::-1], lo[::-1]
            e.update(lat=la, lon=lo)
        else:
            e.update({k: ('~', x, 2) for k, x in [
                ('lat', lat), ('lon', lon), ('min_lat', lat), ('max_lat', lat),
                ('min_lon', lon), ('max_lon', lon)]})
        if self.cls == 'Line':
            e.update(line_type=o['line_type'], width=o['width'], line_type_hardware=0,
                     line_width_hardware=0)
        elif self.cls == 'SpecialLine':
            e.update(line_type=o['line_type'], width=o['width'], stroke=o['stroke'],
                     direction=o['direction'], size=('~', o['size'], 1))
        elif self.cls == 'Front':
            e.update({k: o[k] for k in ('front_code', 'pip_size', 'pip_stroke',
                                        'pip_direction', 'width')})
        elif self.cls == 'SpecialText':
            e.update({k: o[k] for k in ('text_type', 'font', 'align', 'text_color', 'offset_x',
                                        'offset_y', 'turbulence_symbol')})
            e.update(size=('~', o['size'] / 14, 3), line_color=o['edgecolor'],
                     fill_color=o['facecolor'], rotation=('~', o['rotation'], 1),
                     text=self.text.split('\x00')[0].replace('$$', '\n').strip())
        else:
            e.update({k: o[k] for k in ('width', 'symbol_code', 'offset_x', 'offset_y')})
            e.update(size=('~', o['size'], 1), number_symbols=1)
        return e


def build(cls, coords, opts, text=None):
    """Construct the real element."""
    from gempakio.encode import vgf

    lat, lon = coords
    args = [lon, lat] + ([text] if cls == 'SpecialText' else [])
    o = dict(opts)
    for k in REQUIRED[cls]:
        o.setdefault(k, OPTIONS[cls][k][0])
    return getattr(vgf, cls)(*args, **o)


def sample_coords(cls, n=3, salt=0):
    """Coordinates for an element of this class."""
    lat, lon = R.points(n, salt)
    return (lat, lon) if is_line(cls) else (lat[0], lon[0])
