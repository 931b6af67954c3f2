"""python -m mc.replay ARTEFACT: run the single case of a violation again, without the explorer.

Exits 1 and prints the violation if it is still there, 0 if the case passes.
"""

import importlib
import json
import signal
import sys
import tempfile

from mc import core


def main():
    """Replay."""
    art = json.load(open(sys.argv[1]))
    core._silence()
    signal.signal(signal.SIGALRM, core._alarm)
    mod = importlib.import_module(art['module'])
    with tempfile.TemporaryDirectory(dir=core.scratch_root()) as d:
        for attempt in (1, 2):  # the same case must give the same answer twice
            rec = core.Recorder(mod, d)
            rec.case(art['case'])
            got = [v['message'] for v in rec.violations]
            print(f'run {attempt}:', got or 'no violation')
    return 1 if got else 0


if __name__ == '__main__':
    sys.exit(main())
