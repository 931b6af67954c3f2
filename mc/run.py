"""python -m mc.run MODULE: run one check."""

import sys

from mc import core

if __name__ == '__main__':
    sys.exit(core.run_check(sys.argv[1]))
