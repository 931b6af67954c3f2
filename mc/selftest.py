"""Bind the reference models to files written by GEMPAK (the samples under /repo/tests/data)."""

import sys

from mc import core, gemref, layout


def main():
    """Parse every sample with the reference parser; check the bit packers against themselves."""
    n = m = 0
    for f in sorted((core.REPO / 'tests' / 'data').glob('*')):
        if f.suffix in ('.grd', '.sfc', '.snd', '.gem'):
            o = gemref.parse(f.read_bytes())
            if o.I(131) == 0:  # nothing was ever deleted from it
                layout.whole(o)
                m += 1
            n += 1
    for nbits in range(1, 33):
        for k in range(1, 9):
            vals = [(0x9E3779B97F4A7C15 >> i) & ((1 << nbits) - 1) for i in range(k)]
            assert gemref.unpack_bits(gemref.pack_bits(vals, nbits), nbits, k) == vals
    assert m > 20
    print(f'reference parser accepts {n} GEMPAK sample files, {m} with the layout of new files')
    return 0


if __name__ == '__main__':
    sys.exit(main())
