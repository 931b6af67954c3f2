"""Independent reference for the GEMPAK data management (DM) file layout.

Written from the GEMPAK documentation (DM library, GBDIAG/DP packing), not from gempakio: a
builder that lays out any table (rows x columns x parts, unused headers, missing entries, either
byte order, any block order), a parser that walks a file and checks its structure, and
bit-at-a-time packers.  Everything is deliberately plain Python.
"""

import math
import struct

HEADER = b'GEMPAK DATA MANAGEMENT FILE '
USED = 9999
MISS = -9999
REAL, INTEGER, CHARACTER, REALPACK, GRID = 1, 2, 3, 4, 5
SURFACE, SOUNDING, GRIDFILE = 1, 2, 3


# ----------------------------------------------------------------- bits
def pack_bits(values, nbits):
    """Concatenate unsigned values, most significant bit first, into 32-bit words."""
    assert all(0 <= v < (1 << nbits) for v in values)
    bits = ''.join(f'{v:0{nbits}b}' for v in values)
    return [int(bits[k : k + 32].ljust(32, '0'), 2) for k in range(0, len(bits), 32)]


def unpack_bits(words, nbits, n):
    """Inverse of pack_bits."""
    bits = ''.join(f'{w & 0xFFFFFFFF:032b}' for w in words)
    return [int(bits[k : k + nbits], 2) for k in range(0, n * nbits, nbits)]


def pack_real(rows, params):
    """DP packing: each row of integers starts on a word boundary. None is missing.

    Parameters follow each other from the low-order end of the first word upwards.
    """
    words = []
    for row in rows:
        acc, total = 0, 0
        for v, p in zip(row, params, strict=True):
            b = p['bits']
            acc |= ((1 << b) - 1 if v is None else v) << total
            total += b
        n = (total - 1) // 32 + 1
        words += [(acc >> (32 * k)) & 0xFFFFFFFF for k in range(n)]
    return words


def f32(x):
    """Round to the nearest 32-bit float."""
    return struct.unpack('<f', struct.pack('<f', x))[0]


# ----------------------------------------------------------------- builder
def enc_word(x, en):
    """Encode one word: int, float, 4-byte string, or raw unsigned."""
    if isinstance(x, bytes):
        assert len(x) == 4
        return x
    if isinstance(x, str):
        b = x.encode()
        assert len(b) <= 4, x
        return b.ljust(4)
    if isinstance(x, float):
        return struct.pack(en + 'f', x)
    if x > 0x7FFFFFFF:
        return struct.pack(en + 'I', x)
    return struct.pack(en + 'i', x)


class Image:
    """A sparse word-addressed file image (1-based words)."""

    def __init__(self, en, fill):
        self.en = en
        self.fill = fill
        self.words = {}
        self.top = 0

    def put(self, at, seq):
        for k, w in enumerate(seq):
            pos = at + k
            assert pos not in self.words, f'overlap at word {pos}'
            self.words[pos] = enc_word(w, self.en)
            self.top = max(self.top, pos)
        return at + len(seq)

    def bytes(self):
        return b''.join(self.words.get(i, self.fill) for i in range(1, self.top + 1))


def build(
    *,
    en='<',
    file_type,
    source,
    row_keys,
    col_keys,
    rows,
    cols,
    parts,
    data,
    nav=None,
    anl=None,
    missing_float=-9999.0,
    order=None,
    gap=0,
    fill=b'\x00\x00\x00\x00',
    unused='missing',
):
    """Build a DM file.

    rows/cols: lists of header word lists, or None for an unused (deleted) entry.
    parts: dicts name, header (words), type, params=[dict(name, scale, offset, bits)].
    data: {(irow, icol, ipart): (header_words, data_words)}; indexes are physical.
    order: 'fwd' or 'rev' order of data records; gap: unused words between blocks.
    unused: 'missing' fills unused headers with -9999, 'stale' leaves old values behind.
    """
    img = Image(en, fill)
    nr, nc, npt = len(rows), len(cols), len(parts)
    pos = 129 + 128 + gap
    row_keys_ptr = pos
    col_keys_ptr = row_keys_ptr + len(row_keys)
    pos = col_keys_ptr + len(col_keys) + gap
    file_keys_ptr = pos
    nfh = 0
    if nav is not None:
        nfh = 2
        p = img.put(pos, ['NAVB', 'ANLB', len(nav), len(anl), 1, 1])
        p = img.put(p, [len(nav), *nav])
        p = img.put(p, [len(anl), *anl])
        pos = p + gap
    row_headers_ptr = pos
    col_headers_ptr = row_headers_ptr + nr * (len(row_keys) + 1)
    pos = col_headers_ptr + nc * (len(col_keys) + 1) + gap
    parts_ptr = pos
    nparam = sum(len(p['params']) for p in parts)
    pos = parts_ptr + 4 * npt + 4 * nparam + gap
    data_block_ptr = pos
    free = data_block_ptr + nr * nc * npt + gap

    img.put(row_keys_ptr, row_keys)
    img.put(col_keys_ptr, col_keys)

    def headers(ptr, heads, keys):
        for h in heads:
            if h is None:
                if unused == 'missing':
                    words = [MISS] * (len(keys) + 1)
                else:  # a deleted entry keeps its old words, only the flag is cleared
                    words = [MISS] + [USED] * len(keys)
            else:
                assert len(h) == len(keys), (h, keys)
                words = [USED, *h]
            ptr = img.put(ptr, words)

    headers(row_headers_ptr, rows, row_keys)
    headers(col_headers_ptr, cols, col_keys)

    p = img.put(parts_ptr, [q['name'] for q in parts])
    p = img.put(p, [q['header'] for q in parts])
    p = img.put(p, [q['type'] for q in parts])
    p = img.put(p, [len(q['params']) for q in parts])
    p = img.put(p, [x['name'] for q in parts for x in q['params']])
    p = img.put(p, [x.get('scale', 0) for q in parts for x in q['params']])
    p = img.put(p, [x.get('offset', 0) for q in parts for x in q['params']])
    p = img.put(p, [x.get('bits', 0) for q in parts for x in q['params']])

    keys = sorted(data)
    if order == 'rev':
        keys.reverse()
    ptrs = {}
    for k in keys:
        hdr, dat = data[k]
        ptrs[k] = free
        free = img.put(free, [len(hdr) + len(dat), *hdr, *dat]) + gap
    for i in range(nr):
        for j in range(nc):
            for q in range(npt):
                img.put(
                    data_block_ptr + i * nc * npt + j * npt + q, [ptrs.get((i, j, q), 0)]
                )
    img.put(129, [free, 62, 0, 0] + [0] * 124)
    img.put(
        1,
        [HEADER[i : i + 4] for i in range(0, 28, 4)]
        + [1, nfh, file_keys_ptr, nr, len(row_keys), row_keys_ptr, row_headers_ptr]
        + [nc, len(col_keys), col_keys_ptr, col_headers_ptr, npt, parts_ptr]
        + [129, 128, data_block_ptr, file_type, source, 11, MISS, 0, 0, 0]
        + [float(missing_float)],
    )
    pad = (-img.top) % 128
    img.top += pad
    return img.bytes()


def navb(proj, nx, ny, lllat, lllon, urlat, urlon, a1, a2, a3, gtype=2.0):
    """Navigation block words."""
    w = [float(gtype), f'{proj:<4s}', 1.0, 1.0, float(nx), float(ny)]
    w += [float(x) for x in (lllat, lllon, urlat, urlon, a1, a2, a3)]
    return w + [0.0] * (256 - len(w))


def anlb(kind=2, corners=(0, 0, 0, 0), dn=1.0):
    """Analysis block words (type 1, 2 or anything else)."""
    c = [float(x) for x in corners]
    w = [float(kind), float(dn)]
    if kind == 1:
        w += [0.0, 0.0, 0.0]
    else:
        w += [0.0] * 4
    w += c * 3
    return w + [0.0] * (128 - len(w))


# ----------------------------------------------------------------- parser
class Malformed(Exception):
    """The file breaks a structural rule of the format."""


class Parsed:
    """Everything in a DM file, read independently."""


def parse(raw):
    """Parse and structurally check a DM file; raise Malformed."""
    if raw[:28] != HEADER:
        raise Malformed('bad file identification')
    if len(raw) % 4:
        raise Malformed(f'length {len(raw)} is not a whole number of words')
    en = '<' if raw[28:32] == b'\x01\x00\x00\x00' else '>'
    nwords = len(raw) // 4
    used = {}

    def claim(at, n, what):
        if at < 1 or at + n - 1 > nwords:
            raise Malformed(f'{what}: words {at}..{at + n - 1} outside the file of {nwords}')
        for w in range(at, at + n):
            if w in used:
                raise Malformed(f'{what} at word {w} overlaps {used[w]}')
            used[w] = what

    def I(at):
        return struct.unpack_from(en + 'i', raw, 4 * (at - 1))[0]

    def F(at):
        return struct.unpack_from(en + 'f', raw, 4 * (at - 1))[0]

    def S(at):
        return raw[4 * (at - 1) : 4 * at].decode('ascii')

    o = Parsed()
    o.I, o.F, o.S, o.en, o.nwords, o.raw = I, F, S, en, nwords, raw
    claim(1, 32, 'label')
    names = (
        'version file_headers file_keys_ptr rows row_keys row_keys_ptr row_headers_ptr columns '
        'column_keys column_keys_ptr column_headers_ptr parts parts_ptr data_mgmt_ptr '
        'data_mgmt_length data_block_ptr file_type data_source machine_type missing_int'
    ).split()
    o.label = {n: I(8 + k) for k, n in enumerate(names)}
    L = o.label
    o.missing_float = F(31)
    if L['version'] != 1:
        raise Malformed(f'version {L["version"]}')
    if L['missing_int'] != MISS or o.missing_float != -9999.0:
        raise Malformed('missing data values in label')
    if L['data_mgmt_ptr'] != 129 or L['data_mgmt_length'] != 128:
        raise Malformed('data management record is not words 129-256')
    claim(129, 128, 'data management')
    o.next_free = I(129)
    claim(L['row_keys_ptr'], L['row_keys'], 'row keys')
    claim(L['column_keys_ptr'], L['column_keys'], 'column keys')
    o.row_keys = [S(L['row_keys_ptr'] + k).strip() for k in range(L['row_keys'])]
    o.col_keys = [S(L['column_keys_ptr'] + k).strip() for k in range(L['column_keys'])]
    o.file_headers = {}
    p = L['file_keys_ptr']
    n = L['file_headers']
    if n:
        claim(p, 3 * n, 'file header keys')
        fnames = [S(p + k) for k in range(n)]
        flens = [I(p + n + k) for k in range(n)]
        p += 3 * n
        for fn, fl in zip(fnames, flens, strict=True):
            claim(p, fl + 1, f'file header {fn}')
            if I(p) != fl:
                raise Malformed(f'file header {fn}: length {I(p)} but key says {fl}')
            o.file_headers[fn] = (p + 1, fl)
            p += fl + 1

    def headers(ptr, count, keys, what):
        out = []
        claim(ptr, count * (len(keys) + 1), what)
        for _ in range(count):
            flag = I(ptr)
            if flag == USED:
                out.append({k: ptr + 1 + i for i, k in enumerate(keys)})
            elif flag == MISS:
                out.append(None)
            else:
                raise Malformed(f'{what}: flag {flag}')
            ptr += len(keys) + 1
        return out

    o.rows = headers(L['row_headers_ptr'], L['rows'], o.row_keys, 'row headers')
    o.cols = headers(L['column_headers_ptr'], L['columns'], o.col_keys, 'column headers')
    npt = L['parts']
    p = L['parts_ptr']
    counts = [I(p + 3 * npt + k) for k in range(npt)]
    if any(c < 0 or c > 44 for c in counts):
        raise Malformed(f'parameter counts {counts}')
    claim(p, 4 * npt + 4 * sum(counts), 'parts')
    o.parts = []
    q = p + 4 * npt
    tot = sum(counts)
    k0 = 0
    for k in range(npt):
        prm = []
        for m in range(counts[k]):
            at = q + k0 + m
            prm.append(
                {'name': S(at).strip(), 'scale': I(at + tot), 'offset': I(at + 2 * tot),
                 'bits': I(at + 3 * tot)}
            )
        k0 += counts[k]
        o.parts.append(
            {'name': S(p + k).strip(), 'header': I(p + npt + k), 'type': I(p + 2 * npt + k),
             'params': prm}
        )
    nent = L['rows'] * L['columns'] * npt
    claim(L['data_block_ptr'], nent, 'data block pointers')
    o.data = {}
    for i in range(L['rows']):
        for j in range(L['columns']):
            for k in range(npt):
                at = I(L['data_block_ptr'] + (i * L['columns'] + j) * npt + k)
                if at == 0:
                    continue
                if o.rows[i] is None or o.cols[j] is None:
                    raise Malformed(f'data stored under an unused header ({i},{j})')
                if at < 1 or at > nwords:
                    raise Malformed(f'data pointer {at} outside the file')
                ln = I(at)
                if ln < o.parts[k]['header']:
                    raise Malformed(f'data record ({i},{j},{k}) has length {ln}')
                claim(at, ln + 1, f'data record ({i},{j},{k})')
                o.data[i, j, k] = (at + 1, ln)
    o.used = used
    return o


def raw_grid(o, key):
    """(nx, ny, packing, bits, missflag, kxky, ref, scale, words) of a grid record."""
    at, ln = o.data[key]
    h = o.parts[key[2]]['header']
    nx, ny = o.I(at), o.I(at + 1)
    p = at + h
    pk, bits, mf, kxky = (o.I(p + k) for k in range(4))
    ref, scale = o.F(p + 4), o.F(p + 5)
    words = [o.I(w) & 0xFFFFFFFF for w in range(p + 6, at + ln)]
    return nx, ny, pk, bits, mf, kxky, ref, scale, words


def grib_values(bits, missflag, n, ref, scale, words):
    """Reference GRIB unpacking; None where missing."""
    imax = (1 << bits) - 1
    return [
        None if (missflag and v == imax) else ref + v * scale
        for v in unpack_bits(words, bits, n)
    ]


def close(a, b, tol):
    """Equal within tol (both missing counts as equal)."""
    if a is None or b is None:
        return a is None and b is None
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol
