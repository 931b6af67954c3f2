"""The properties: source of properties.jsonl and MANIFEST.json (python -m mc.props)."""

import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
P = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, state=(), observe=(),
         check=None, level='model_checking', technique='', note='', na=None):
    """Register one property."""
    P.append(
        dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why,
             files=files, mechanism=mechanism, state=state, observe=observe, check=check,
             level=level, technique=technique, note=note, na=na)
    )


E = 'src/gempakio/encode/gempak.py'
D = 'src/gempakio/decode/gempak.py'
VE = 'src/gempakio/encode/vgf.py'
VD = 'src/gempakio/decode/vgf.py'
C = 'src/gempakio/common.py'
T = 'src/gempakio/tools.py'
G = 'src/gempakio/gemcalc.py'

prop(
    'S01', 'Sounding files give back exactly the soundings that were added',
    'After any sequence of additions, replacements, rejected additions and writes, reading a '
    'written sounding file lists and returns exactly one sounding per distinct station and time '
    'added, with its identifier, number, position (hundredths of a degree), elevation, state, '
    'country and time. Every level of every parameter has the 32-bit value last given for that '
    'station and time, with NaN or -9999 coming back as missing. Rejected additions and earlier '
    'writes leave no trace, and the caller\'s data is not modified.',
    ['histories', 'inputs'],
    'every operation history up to the depth bound over colliding stations and times; every '
    'occupancy pattern of small tables; every level count, parameter count, hundredth of a '
    'degree, minute of the day and two-digit year in the bounded domains',
    'The one sounding test adds a single sounding once and reads it back; it reaches no second '
    'station or time, no replacement, no empty table cell, no missing value, no text time.',
    [E, D, T],
    ['pointer computation and block-aligned layout of the data management file',
     'row/column header sets, sorted on every addition', 'dictionary keyed by row and column'],
    [('row and column header sets', 'times and stations known to the file'),
     ('data dictionary', 'parameter columns of each (time, station)')],
    ['SoundingFile.to_gempak output', 'GempakSounding.sninfo / snxarray'],
    check='s01_sounding',
    technique='bounded exhaustive exploration of writer operation histories against a reference '
              'model, each replayed on the real writer and reader',
    note='All histories of length <= 3 (quick) / 4 (thorough) over a 12-16 operation alphabet, '
         'plus exhaustive small-scope enumeration of table shapes, sizes and encodings.',
)
prop(
    'S02', 'Surface files give back exactly the reports that were added',
    'After any sequence of additions, replacements, rejected additions and writes, reading a '
    'written surface file lists and returns exactly one report per distinct station and time '
    'added, with its identifier, number, position (hundredths of a degree), elevation, state, '
    'country, priority and time. Every parameter has the 32-bit value last given for that '
    'station and time, missing values included. Rejected additions and earlier writes leave no '
    'trace, and the caller\'s data is not modified.',
    ['histories', 'inputs'],
    'every operation history up to the depth bound over colliding stations and times; every '
    'occupancy pattern of small tables; every parameter count, hundredth of a degree, minute of '
    'the day and two-digit year in the bounded domains',
    'The one surface test writes one station; it reaches no second column, no replacement, no '
    'empty cell, no text time, no long identifier.',
    [E, D, T],
    ['pointer computation and block-aligned layout of the data management file',
     'row/column header sets, sorted on every addition', 'dictionary keyed by row and column'],
    [('row and column header sets', 'times and stations known to the file'),
     ('data dictionary', 'parameter values of each (time, station)')],
    ['SurfaceFile.to_gempak output', 'GempakSurface.sfinfo / sfjson'],
    check='s02_surface',
    technique='bounded exhaustive exploration of writer operation histories against a reference '
              'model, each replayed on the real writer and reader',
    note='All histories of length <= 3 (quick) / 4 (thorough) over a 12-16 operation alphabet, '
         'plus exhaustive small-scope enumeration of table shapes, sizes and encodings.',
)


prop(
    'G01', 'Grid files give back exactly the grids that were added',
    'After any sequence of additions, replacements, rejected additions and writes, reading a '
    'written grid file lists and returns exactly one grid per distinct combination of time '
    'range, level range, vertical coordinate and parameter name added, with the attributes and '
    'times it was added under. Each holds the values of the last array given for that '
    'combination to within the packing precision of the range of that array, with missing '
    'points exactly where they were given. Rejected additions and earlier writes leave no '
    'trace, and the caller\'s array is neither modified nor referred to after the addition.',
    ['histories', 'inputs'],
    'every operation history up to the depth bound over grids colliding in all but one '
    'attribute; every number of grids up to 139, grid shape up to 12 x 12, array layout and '
    'element type; every insertion order of six colliding grids',
    'The grid tests add one to three grids of one shape in one order, with distinct names; none '
    'replaces a grid, reuses an array, mixes time ranges, or writes between additions.',
    [E, D, C],
    ['sorted set of column headers gives a grid its column number',
     'pointer computation and block-aligned layout of the data management file',
     'GRIB packing with a flag value for missing points'],
    [('column header set', 'grids known to the file'), ('data dictionary', 'array of each grid')],
    ['GridFile.to_gempak output', 'GempakGrid.gdinfo / gdxarray'],
    check='g01_grid_history',
    technique='bounded exhaustive exploration of writer operation histories against a reference '
              'model, each replayed on the real writer and reader',
    note='All histories of length <= 3 (quick) / 4 (thorough) over a 12-16 operation alphabet, '
         'plus exhaustive small-scope enumeration of shapes, counts, layouts and orders.',
)


prop(
    'G02', 'Grid packing keeps every value within the requested precision',
    'For every bit width from 1 to 31 and every grid of values a 32-bit range can hold, of any '
    'shape, element type or memory layout, each value read back is within half a packing step '
    'of the value given, the step being at most twice the range of the values present divided '
    'by the number of codes available. A point is missing when read back exactly when it was '
    'given as NaN or -9999.',
    ['inputs'],
    'every bit width 1-31 x every number of points up to 72 (quick) / 200 (thorough) x value '
    'patterns with missing points, ranges on both sides of every scale change, all 2 x 2 grids '
    'over a six-value alphabet, twelve element types and four memory layouts',
    'The tests pack one grid at 16 bits; bit widths whose codes straddle words, the largest code '
    'colliding with the missing flag, and grids of one word are never exercised.',
    [E, D],
    ['scale search and rounding in pack_grib', 'word-splitting shifts when packing',
     'word-splitting shifts when unpacking @ src/gempakio/decode/gempak.py:_unpack_grib'],
    observe=['packed words in the file', 'GempakGrid.gdxarray values'],
    check='g02_grid_packing',
    technique='bounded exhaustive enumeration of packings on the real packer and unpacker, '
              'compared with an independent bit-level model',
    note='Every bit width x size in bounds, exhaustively; value patterns are a fixed alphabet.',
)
prop(
    'G03', 'Grid files laid out by any GEMPAK writer decode to the grids they hold',
    'For every grid file that follows the GEMPAK layout, in either byte order, with any header '
    'length, block order or padding, deleted or empty entries anywhere in the table, and grids '
    'unpacked or packed by the GRIB, DEC or DIFF schemes at any bit width, GempakGrid lists and '
    'returns exactly the grids held with the stored values. Points are missing exactly where '
    'the file says so.',
    ['inputs', 'histories'],
    'every used/deleted/empty pattern of up to 5 (6) columns x byte order x header length; every '
    'bit width x number of points up to 40 (80) x packing scheme; every missing-point pattern '
    'of a 3 x 3 grid; every layout combination in bounds',
    'The sample files have no deleted columns, one bit width each, and one byte order per '
    'packing scheme.',
    [D],
    ['header scan and data pointer arithmetic', '_unpack_grid, _unpack_grib bit arithmetic'],
    observe=['GempakGrid.gdinfo / gdxarray'],
    check='g03_grid_decoding',
    technique='bounded exhaustive enumeration of files generated by a reference model of the '
              'format, each decoded by the real reader',
    note='The reference model is itself checked against the 29 real GEMPAK sample files (setup).',
)
prop(
    'G04', 'Grid points are where they were put: projections and coordinates round-trip',
    'For every documented projection of a sphere, with any origin, parallels, scale, false origin '
    'or radius, and any grid placed in its plane (either form of coordinates, any row order, '
    'across the antimeridian or once around the globe), the file navigation means, and the reader '
    'returns, the latitude and longitude of every point as given; corners are kept on an '
    'ellipsoid too. For every navigation block with a supported projection code, unrotated, '
    'points are evenly spaced in the projection plane between its corners, columns running '
    'eastward on cylindrical maps, and project_point agrees with x and y. Other projections and '
    'malformed coordinates are refused.',
    ['inputs', 'configurations'],
    'every projection with each latitude and longitude of origin, pair of parallels, scale and '
    'offset of an alphabet, placed at each of 5-16 rectangles, six sizes, both byte orders, both '
    'forms and several data types of coordinates and longitude conventions',
    'The tests use one plane per projection; nothing crosses a map edge, lies south of the '
    'equator, or has one standard parallel, an offset or a scale.',
    [E, D],
    ['_set_projection_params, _set_bbox @ src/gempakio/encode/gempak.py:GridFile',
     '_get_crs, _set_coordinates, project_point @ src/gempakio/decode/gempak.py:GempakGrid'],
    [('navigation block', 'projection code, angles and corners'),
     ('x, y, lon, lat', 'evenly spaced in the plane')],
    ['GempakGrid.lon / lat / x / y / project_point, coordinates of gdxarray'],
    check='g04_projections',
    technique='bounded exhaustive enumeration of grid placements through the real writer and '
              'reader, against projection formulas computed independently of PROJ',
    note='Tolerance 0.001 degree. Rotated grids are not claimed. One known finding: transverse '
         'Mercator and UTM are documented as valid but not implemented.',
)
prop(
    'G05', 'Grid types and times survive encoding and decode correctly',
    'For every initial time from 1969 to 2068 and forecast offset up to 999 hours 59 minutes, '
    'whether given as text (with any type letter) or datetime, and for every pair of GEMPAK time '
    'integers, the grid type, valid time and second time listed and returned are those that '
    'were meant.',
    ['inputs'],
    'every day of the century, every minute of a day, every type letter with every offset form '
    'in bounds, every pair of first and second time from a 13-form alphabet',
    'The tests use a handful of times, none near a month, year or century end.',
    [E, D],
    ['text time parsing in add_grid', 'GDT/GTM header packing',
     'GDT/GTM decoding @ src/gempakio/decode/gempak.py:_convert_dattim'],
    observe=['GempakGrid.gdinfo / gdxarray'],
    check='g05_grid_times',
    technique='bounded exhaustive enumeration of time encodings through the real writer and '
              'reader against a reference model',
    note='Exhaustive over days and minutes separately, and over the offset forms listed.',
)
prop(
    'G06', 'Grid selection returns exactly the grids that match all criteria',
    'For every combination of criteria in every accepted form (one value, list, tuple, array, '
    'text time, first/last, any letter case), gdxarray returns exactly the grids that satisfy '
    'all of them, in file order, and reports no match otherwise. No selection alters its '
    'arguments or affects a later selection.',
    ['inputs', 'histories'],
    'every combination of forms of at most four (quick) / six (thorough) criteria on three '
    'files, and every ordered pair of single-criterion selections on one object',
    'The tests combine few criteria, in few forms, on files whose grids all have or all lack a '
    'second time.',
    [D],
    ['argument normalisation and filter chain in gdxarray'],
    [('reader buffer position and listing', 'shared by successive selections')],
    ['list returned by gdxarray'],
    check='g06_grid_queries',
    technique='bounded exhaustive enumeration of selections and selection pairs on the real '
              'reader against a reference filter',
    note='Exhaustive over the forms listed.',
)
prop(
    'S03', 'Station files laid out by any GEMPAK writer decode to what they hold',
    'For every merged sounding file and every standard, ship or climate surface file that '
    'follows the GEMPAK layout (either byte order, any key and block order, deleted rows and '
    'columns, absent cells or parts, real or bit-packed parts of any field widths, scales and '
    'offsets), the listing names exactly the entries held, each under its own station and time. '
    'Every value returned is the stored one and missing values are recognised.',
    ['inputs', 'histories'],
    'every used/deleted pattern of rows and columns and every absence pattern of small tables x '
    'layout kind x byte order; every pair (with four third) of field widths 1-32; every level '
    'count to 139 and parameter count to 44',
    'Each sample file has one layout; none has deleted entries before used ones, nor field '
    'widths that straddle words in every phase.',
    [D],
    ['header scan and data pointer arithmetic', '_unpack_real bit arithmetic',
     'surface layout detection'],
    observe=['sninfo / snxarray', 'sfinfo / sfjson'],
    check='s03_station_decoding',
    technique='bounded exhaustive enumeration of files generated by a reference model of the '
              'format, each decoded by the real reader',
    note='The reference model is itself checked against the 29 real GEMPAK sample files (setup).',
)
prop(
    'S04', 'Station selection returns exactly the entries that match all criteria',
    'For every combination of station, number, time, state, country and area criteria in every '
    'accepted form, snxarray and sfjson return exactly the entries that satisfy all of them, in '
    'file order, and report no match otherwise; arguments are unchanged and selections are '
    'independent. nearest_time returns, for each selected station, a report at the least '
    'distance from the requested time.',
    ['inputs', 'histories'],
    'every combination of forms of at most three (quick) / six (thorough) criteria on eight '
    'files of the four layouts, every ordered pair of single-criterion selections, every '
    'nearest-time request at, between and one minute around the stored times',
    'The tests use one criterion at a time in one or two forms on files with few stations.',
    [D],
    ['argument normalisation and filter chains in snxarray and sfjson', 'nearest_time'],
    [('reader buffer position and listing', 'shared by successive selections')],
    ['snxarray, sfjson, nearest_time results'],
    check='s04_station_queries',
    technique='bounded exhaustive enumeration of selections and selection pairs on the real '
              'readers against a reference filter',
    note='Exhaustive over the forms listed.',
)
prop(
    'S05', 'Every METAR and special report is returned once, with its own time',
    'For a surface file with report text, every report held in the text parts is returned exactly '
    'once, METAR text under the time it is filed, special text under the time in the text (in '
    'the month nearest the filing time) or the filing time if it has none that is valid. '
    'Numeric values accompany the METAR reports, or the specials if there is no METAR. Specials '
    'are left out unless asked for, in selections and in nearest_time.',
    ['inputs'],
    'every combination of METAR, special and numeric variants x station x filing time; specials '
    'at nine offsets from four filing times of every day of three years; every padding length',
    'One sample file with three reports in mid-month.',
    [D],
    ['report splitting and timestamping in _process_report_text'],
    observe=['sfjson(include_special=...) and nearest_time results'],
    check='s05_report_text',
    technique='bounded exhaustive enumeration of report combinations in generated files against '
              'a reference model',
    note='Report bodies come from a three-text alphabet; identifiers are not repeated in bodies.',
)
prop(
    'S06', 'Unmerged soundings merge into one profile that keeps what was reported',
    'For whichever parts, levels and values an unmerged sounding holds, it is listed and returned '
    'once, with every mandatory, tropopause, significant and maximum-wind level that has a usable '
    'position, at strictly decreasing pressures, with the value each part reported (the earlier '
    'part where parts report the same level) and its text unchanged. A value nobody reported is '
    'the hydrostatic height, or lies on the log-pressure line between the nearest reported '
    'values below and above, or is missing; no level or value comes from nowhere. Byte order, '
    'data type and the order of the parts make no difference.',
    ['inputs', 'configurations'],
    'every subset of the twelve parts, with and without a surface, below-ground levels and for '
    'both vertical coordinates of the winds; every missing value and pair of missing values; '
    'every coincidence of a special level with the others; every prefix of the level lists',
    'Five sample soundings, all with a surface or all parts; the merge has some hundred branches '
    'on absent parts, absent values and coinciding levels.',
    [D, G],
    ['_merge_sounding', 'interp_moist_height, interp_logp_height, interp_logp_pressure, '
     'interp_missing_data @ src/gempakio/gemcalc.py'],
    [('merged profile lists', 'one entry per level, surface first')],
    ['GempakSounding.sninfo / snxarray'],
    check='s06_unmerged',
    technique='bounded exhaustive enumeration of unmerged soundings, each built by an independent '
              'writer, merged by the real reader and checked against a declarative specification '
              'of the merged profile',
    note='One meteorological profile; values differ between parts so that their source shows. '
         'Tropopause at a mandatory level may have either height.',
)
prop(
    'D01', 'A cut-off GEMPAK file yields an error or part of its contents, nothing else',
    'For every grid, sounding and surface file and every byte at which it may be cut off, reading '
    'it ends, either in an exception or with a listing and data that are, entry for entry and in '
    'order, among those of the whole file: never an altered value, a shortened text or profile, '
    'or an entry from elsewhere.',
    ['crash_points', 'inputs'],
    'every cut point of some forty files of every kind: written by gempakio, laid out by the '
    'reference builder in both byte orders, and the sample files',
    'No test reads a damaged file.',
    [D, T],
    ['IOBuffer.read_struct, read_int, read_ascii @ src/gempakio/tools.py',
     'header, pointer and data reading @ src/gempakio/decode/gempak.py'],
    [('file contents', 'pointers and headers come before the data they describe')],
    ['GempakGrid / GempakSounding / GempakSurface constructors, listings, gdxarray, snxarray, '
     'sfjson'],
    check='d01_cut_files', level='fault_enumeration',
    technique='exhaustive fault enumeration: every truncation point of every file, read by the '
              'real readers and compared with the whole file',
    note='In the quick tier, files over 8 kB are cut at every 7th byte after the first 4 kB.',
)
prop(
    'D02', 'A damaged byte in a GEMPAK file harms no entry but those it belongs to',
    'Whatever value one byte of a grid, sounding or surface file is changed to, every entry whose '
    'headers, pointers and data records do not contain the byte is still listed and returned '
    'unchanged when it is selected (unless the byte is in the label, keys, parts or navigation, '
    'or in a header that can then no longer be interpreted, so that opening fails). Bytes '
    'between the blocks change nothing. Opening and reading always end, with a result or an '
    'exception and without exhausting memory, wherever the byte is but in the grid size.',
    ['crash_points', 'inputs'],
    'every byte of files of every kind, data type and byte order, with ten values of each byte '
    '(all 255 in the thorough tier)',
    'No test reads a damaged file.',
    [D, T],
    ['label, key and part reading @ src/gempakio/decode/gempak.py',
     'data pointers, record lengths and unpacking @ src/gempakio/decode/gempak.py'],
    [('file contents', 'each entry has headers, pointers and records of its own')],
    ['listings, gdxarray, snxarray and sfjson with one entry selected, and of the whole file'],
    check='d02_damaged_bytes', level='fault_enumeration',
    technique='exhaustive fault enumeration: every byte of every file changed, entries the byte '
              'does not belong to (by an independent parse of the file) compared with those of '
              'the undamaged file',
    note='One byte at a time. Files of up to four entries; sample files are not used.',
)
prop(
    'I01', 'File objects never interfere, in any interleaving or from any threads',
    'Whatever the order in which steps on different file objects (writers and readers of every '
    'kind) are interleaved, and wherever one thread is preempted in favour of another that uses '
    'an object of its own, each object writes and reads exactly what it would alone; opening, '
    'reading or writing the same thing again gives the same again, also after the caller '
    'changed what an earlier call returned.',
    ['schedules', 'histories'],
    'every interleaving of the steps of pairs of 22 programs; every preemption of one program by '
    'another at each function entry or line of gempakio (one preemption), and at pairs of '
    'function entries of both (two preemptions), under a controlled thread scheduler',
    'The tests use one object at a time, in one thread, and do not look at a file twice.',
    [D, E, VD, VE, T],
    ['instance state of DataManagementFile, GempakFile, VGFile, VectorGraphicFile and IOBuffer',
     'class-level structure definitions (NamedStruct) shared by all objects'],
    [('module and class attributes', 'never written after import'),
     ('default arguments', 'never changed')],
    ['files written and data returned, by two objects used in turns or in two threads'],
    check='i01_independence',
    technique='stateless model checking of the real code: enumeration of step interleavings, and '
              'of thread schedules under a controlled scheduler with a preemption bound of two, '
              'against each program alone in a new interpreter',
    note='Preemption points are lines of gempakio, not inside calls into numpy, pyproj or xarray.',
)
prop(
    'V01', 'VGF files hold exactly the elements that were added, option for option',
    'A VGF file written from any sequence of elements, built and then changed through their '
    'setters, consists of a file header and one well-formed record per element, in order; reading '
    'it gives each element back with the points, text, colors, group and every other option it '
    'last had (coordinates to hundredths of a degree). A closed line comes back with its first '
    'point repeated at the end, a special line or front that was flipped with its direction '
    'reversed, text with its line breaks. Writing does not change the elements, so a second write '
    'is the same file.',
    ['histories', 'inputs'],
    'every documented value of every option of every class, pairs of options, every point count, '
    'every hundredth of a degree, every text length and the characters below U+0300, all element '
    'sequences and assignment sequences up to the depth bound',
    'The tests build each class once with one set of options.',
    [VE, VD, T],
    ['record layout and size computation of each element', 'setters that couple two fields (front '
     'code and width, text type and symbol)'],
    [('VGFile.elements', 'elements in file order')],
    ['VGFile.to_vgf output', 'VectorGraphicFile.elements, groups'],
    check='v01_vgf_writing',
    technique='bounded exhaustive exploration of construction, assignment and write histories '
              'against a reference model, each replayed on the real writer and reader',
    note='The record is also split by an independent layout model, so that compensating errors of '
         'writer and reader show.',
)
prop(
    'V02', 'VGF options outside their documented range are refused and change nothing',
    'Constructing an element or assigning one of its options succeeds for every value in the '
    'documented range and raises ValueError or TypeError for every value outside it, in any order '
    'of assignments. Lines and fronts need 2 to 500 points with as many latitudes as longitudes, '
    'and text at most 254 bytes. A refused assignment leaves the encoded record as it was.',
    ['inputs', 'histories'],
    'every option over a contiguous range around the documented one; pairs of options and '
    'sequences of assignments over good and bad values; every text length up to 300 bytes',
    'The tests try a handful of bad values, and never look at the element afterwards.',
    [VE],
    ['range checks of constructors and setters'],
    observe=['exceptions of constructors and setters', 'Element.encode()'],
    check='v02_vgf_validation',
    technique='bounded exhaustive enumeration of option values and assignment sequences on the '
              'real encoder against the documented ranges',
    note='Values the documentation leaves open (front width 9, symbol codes 9 and 10 for '
         'turbulence) are not judged. Fractions for integer options are not tried.',
)
prop(
    'V03', 'Every VGF element type and version decodes to the values in its record',
    'For a VGF file of any mix of supported element types and record versions, each element is '
    'reported in file order with every attribute equal to the value stored in its record (floats '
    'to the reported decimals, text up to its terminator), whatever unused bytes follow it. Point, '
    'county, barb, hash, block and list counts of any size up to the format\'s limit are honoured. '
    'Records of unsupported types are skipped without disturbing their neighbours.',
    ['inputs'],
    'every field of every one of 52 type and version layouts over boundary values, with all other '
    'fields pairwise distinct; all counts up to the limits; all ordered pairs of types, triples '
    'of 16; every sample file shipped',
    'The sample files hold one element of each type, with many zero fields, so exchanged or '
    'misread fields, other versions and neighbours go unseen.',
    [VD, T, C],
    ['one decoder per type with its own record layout', 'version dispatch of watches, SIGMETs and '
     'tracks'],
    observe=['VectorGraphicFile.elements'],
    check='v03_vgf_decoding',
    technique='bounded exhaustive enumeration of records from an independent layout model, each '
              'decoded by the real reader',
    note='The SIGMET status number is a known finding. Watch status messages are not decoded by '
         'the package and are not covered.',
)
prop(
    'V04', 'VGF queries return exactly the elements that match them',
    'filter_elements, the get_/has_ pairs, groups and get_group return exactly the elements that '
    'match, in file order and by identity, or nothing when there are none. bounds is the smallest '
    'box around the bounds of all located elements, and of one element around its own points. '
    'to_json gives, for every type of element and with any encoder class, valid JSON with one '
    'entry per element and every attribute in it.',
    ['inputs'],
    'every class x type x operation on every file of one or two elements of 52 kinds and of '
    'three of 18; all sequences of four elements over eight groups; all boxes over edge values '
    'including 0 and the poles; JSON of every kind',
    'The tests ask one question each of one sample file.',
    [VD],
    ['filter_elements', 'bounds accumulation', 'Group', 'NumpyEncoder'],
    observe=['query results'],
    check='v04_vgf_queries',
    technique='bounded exhaustive enumeration of files and queries on the real reader against a '
              'direct evaluation of each query',
    note='Which elements count as located follows the reader: any bound other than zero.',
)
prop(
    'V05', 'Damaged or cut-off VGF files end in an error or in the intact elements',
    'Reading any prefix of a VGF file ends, either with an exception or with exactly the elements '
    'whose records are wholly present, each with its own values. With any byte of a record '
    'changed, reading still ends, and the elements before it are unharmed, or an exception is '
    'raised. Records that are longer than their layout, or of an unknown type or version, do not '
    'affect the elements around them.',
    ['crash_points', 'inputs'],
    'every cut of files of three records for each of 52 kinds, of a file from the writer and '
    '(stepwise) of the samples; every header byte and the leading words of every kind set to '
    'extreme values; every record size from -3 to 99; 1 to 24 extra bytes on every kind',
    'No test reads a damaged file.',
    [VD, T],
    ['header validation', 'advance from record to record', 'bounds of buffer reads'],
    observe=['VectorGraphicFile.elements or the exception'],
    check='v05_vgf_damage', level='fault_enumeration',
    technique='exhaustive enumeration of crash points and byte faults of generated files, each '
              'read by the real reader',
    note='Which exception is raised is not specified. Single faults only.',
)


prop(
    'W01', 'Writers refuse what cannot be written, and failed writes destroy nothing',
    'For any values of its arguments, an addition to a sounding, surface or grid file is either '
    'refused, leaving what will be written exactly as it was and the writer usable, or the file '
    'can be written and read and holds the new entry as given beside those there were. Malformed '
    'text times, text that is not ASCII, parameter names longer than the field and numbers the '
    'format cannot hold are refused, never altered silently. A write that fails because of its '
    'contents, vector graphics included, leaves an existing file at the path as it was.',
    ['inputs', 'histories'],
    'every one of 75 numbers, texts and objects for each argument of each writer and each '
    'option and assignment of each element, pairs of arguments over a part of them, 40 forms of '
    'text time, 23 array types; every addition around the limit of headers',
    'The tests check a few wrong types; none writes or reads afterwards.',
    [E, VE],
    ['checks in add_sounding, add_station and add_grid @ src/gempakio/encode/gempak.py',
     'header and data packing, which raises or cuts', 'VGFile.to_vgf @ src/gempakio/encode/vgf.py'],
    [('row and column header sets', 'updated only by accepted additions')],
    ['exceptions of additions', 'bytes of the file written', 'readers'],
    check='w01_writable',
    technique='bounded exhaustive enumeration of unusual arguments on the real writers, each '
              'followed by writing and reading back, against the meaning of the arguments',
    note='Two-digit years: times outside 1969-2068 are not judged. Identifiers are cut to eight, '
         'states and countries to four characters as the writers do. Operating system errors '
         'while writing are not injected.',
)

prop(
    'V06', 'Codes in VGF files carry the names GEMPAK gives them, read or written',
    'For every line type, special line type, front code, list type, marker, basin, storm type, '
    'watch or warning level, advisory, severity and geography code in a file, the names the '
    'reader reports (line style and modifier, front type, intensity and character, list type '
    'and marker name, and so on) are those of that code in GEMPAK, and an element shows the '
    'class and type of its record. Every named constant for writing (colors, fills, fonts, text '
    'sizes, fronts, lines, markers, special lines, symbols and texts), used for an option that '
    'takes it, is read back as the code GEMPAK has under that name.',
    ['inputs'],
    'every code of every table and every named constant, in every kind of element that uses it',
    'The tests use four of 170 constants and a handful of codes.',
    [VE, VD],
    ['code enumerations @ src/gempakio/decode/vgf.py', '_set_properties @ src/gempakio/decode/vgf.py',
     'named codes @ src/gempakio/encode/vgf.py'],
    [('line_type, front_code, list_type, marker_type', 'decimal digits of a code have a meaning each')],
    ['attributes of elements read', 'options of elements written with named constants'],
    check='v06_vgf_names', level='model_checking',
    technique='exhaustive enumeration of codes and constants, through records laid out by the '
              'reference model or written by the real writer',
    note='Tables transcribed from GEMPAK; complete for the codes the reader names.',
)
prop(
    'M01', 'A GEMPAK file is described to the user as its own label and blocks say',
    'For every grid, sounding and surface file in either byte order, opened by text or Path, the '
    'label, data management words, row and column keys and headers, parts, parameters with their '
    'scales, offsets and bits, navigation and analysis blocks, grid size and kind of surface file '
    'that the reader reports are those the file holds, and a data source GEMPAK has no name for '
    'is reported as unknown. A file that does not begin with the GEMPAK mark, or whose '
    'navigation or analysis block has another size than GEMPAK gives it, is refused.',
    ['inputs'],
    'every field of the description over its boundary values, in each kind of file and byte order',
    'The tests look at none of the description of a file.',
    [D, C],
    ['GempakFile.__init__ @ src/gempakio/decode/gempak.py',
     '_get_surface_type @ src/gempakio/decode/gempak.py'],
    [('label, parts, navigation and analysis words', 'places fixed by the format')],
    ['dm_label, parts, parameters, row and column headers, navigation_block, analysis_block'],
    check='m01_description', level='model_checking',
    technique='exhaustive enumeration of the words that describe a file, laid out by the '
              'reference builder and read back by their places in the format',
    note='Complete for each field alone over its alphabet; sets of parts in combination.',
)
prop(
    'C01', 'Upper-air calculations follow their formulas and fill only what is missing',
    'For all temperatures, dewpoints and pressures, vapor pressure, mixing ratio, virtual '
    'temperature, scale height and hydrostatic height are those of the GEMPAK formulas they name, '
    'and missing exactly when they need an input that is (mixing ratio also where vapor would '
    'exceed half of the pressure). For profiles with any values missing, interpolation fills a gap '
    'with the value on the log-pressure line (hydrostatic for moist heights and above the highest '
    'known height) between the nearest levels that have one, directions the short way round, '
    'temperature with dewpoint and direction with speed; it extrapolates nothing else and changes '
    'no other value.',
    ['inputs'],
    'every combination of 17 temperatures and dewpoints and 12 pressures, each also missing, and '
    'of three missing data flags; every pattern of missing values in profiles of up to six (seven) '
    'levels, within and across 100 hPa, with and without the lowest pressure',
    'No test calls these functions; they are reached by one or two merged samples.',
    [G, D],
    ['interp_logp_height, interp_logp_pressure, interp_missing_data, interp_moist_height, '
     'interp_parameters', 'vapor_pressure, mixing_ratio, virtual_temperature, scale_height'],
    [('sounding dictionary', 'profile changed in place')],
    ['results of the functions of gempakio.gemcalc'],
    check='c01_calculations',
    technique='bounded exhaustive enumeration of arguments and missing value patterns on the real '
              'functions against plain-arithmetic reference formulas',
    note='Profiles have decreasing pressures, and temperatures at every level where moist heights '
         'are computed, as in the merged soundings these functions serve.',
)

prop(
    'L01', 'Written files have the layout of GEMPAK files, whatever is in them',
    'Every sounding, surface and grid file written with at least one entry, whatever was added in '
    'whatever order, consists of whole 128-word records in which label, keys, headers, parts, '
    'navigation and analysis blocks, data pointers and data records lie where the label says, '
    'inside the file and without overlap, headers, parts, pointers and data each beginning a '
    'record. The next free word follows the last word in use, the file ends with the record that '
    'holds it, and file type, keys, parts and parameters are those GEMPAK defines for the kind of '
    'file. Every row and column header holds data, no two are the same, each entry is under the '
    'headers of its own time, station or grid, and a cell that was not added has no pointer.',
    ['inputs', 'histories'],
    'every set of entries in tables of up to 4 x 3, every order of five additions with writes and '
    'replacements, every number of stations, levels, parameters and grids over a record and more, '
    'every packing precision, every placement of G04',
    'The tests read their files with the library only, which needs no padding, free words or keys.',
    [E],
    ['DataManagementFile._set_pointers and writers of label, keys, headers and parts',
     'GridFile/SoundingFile/SurfaceFile _write_data, _write_row_headers, _write_column_headers'],
    [('pointers and next free word', 'set again at every write')],
    ['bytes of the file written'],
    check='l01_layout',
    technique='bounded exhaustive enumeration of histories of the real writers; the bytes are '
              'parsed by an independent model of the file layout, itself checked against GEMPAK '
              'sample files',
    note='A file without entries has no rows to read and is not judged. The grid spacing in the '
         'analysis block, which only objective analysis uses, is not judged.',
)


def main():
    """Write properties.jsonl and MANIFEST.json."""
    lines, checks, na = [], [], []
    for p in P:
        q = {
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'state': [{'name': a, 'meaning': b} for a, b in p['state']],
                'mechanism': [
                    dict(zip(('name', 'where'), m.split(' @ '))) if ' @ ' in m
                    else {'name': m, 'where': p['files'][0]} for m in p['mechanism']
                ],
                'observe_at': list(p['observe']),
                'hook_needed': None,
            },
        }
        lines.append(json.dumps(q))
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        if p['check']:
            cmd = f'./check.sh {p["check"]}'
            checks.append({
                'property': p['id'],
                'quick_cmd': f'VERIF_TIER=quick {cmd}',
                'thorough_cmd': f'VERIF_TIER=thorough {cmd}',
                'technique': p['technique'], 'level': p['level'], 'level_note': p['note'],
            })
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'no check yet'})
    (VERIF / 'properties.jsonl').write_text('\n'.join(lines) + '\n')
    man = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': checks,
        'not_applicable': na,
    }
    (VERIF / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')
    print(len(checks), 'checks')


if __name__ == '__main__':
    main()
