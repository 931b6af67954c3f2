"""Shared driver: exhaustive enumeration over work units, violation records, evidence.

A check module provides

    PROPERTY   property id, e.g. 'G01'
    LEVEL      'model_checking' | 'exploration' | 'fault_enumeration'
    RULE       one sentence: how cases are made and what makes one non-trivial
    plan(tier) -> list of JSON-able work units (the bounded space, split)
    run_unit(unit, rec)       enumerate every case of the unit
    run_case(case, rec)       execute ONE case on the real code, raise Violation if broken

`run_unit` must hand every case to `rec.case(case)`; a case is JSON-able, so that the replay
artefact written for a violation is enough to run it again (python -m mc.replay FILE).
Nothing is sampled: a unit is enumerated to its end, and the run ends only when all units did.
"""

import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
from pathlib import Path
import random
import re
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('GEMPAKIO_REPO', '/repo'))
CASE_SECONDS = 60
MAX_VIOL_PER_UNIT = 25
MEM_LIMIT = 6 << 30

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('PROJ_NETWORK', 'OFF')
os.environ.setdefault('TZ', 'UTC')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'  # never trust stale bytecode in the working tree
if str(REPO / 'src') not in sys.path:
    sys.path.insert(0, str(REPO / 'src'))


class Violation(Exception):
    """The property does not hold in this case; key identifies the failing input."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class CaseTimeout(BaseException):
    """A single case ran longer than any terminating run could."""


def expect(cond, message, key=None):
    """Raise a Violation unless cond."""
    if not cond:
        raise Violation(message() if callable(message) else message, key)


def digest(obj):
    """Short stable digest of a JSON-able object."""
    return hashlib.blake2b(
        json.dumps(obj, sort_keys=True, default=str).encode(), digest_size=8
    ).hexdigest()


class Recorder:
    """Counts what one work unit covered."""

    def __init__(self, module, scratch):
        self.module = module
        self.scratch = scratch
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.nontrivial = set()
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.suppressed = 0
        self.keys = set()
        self.repeated = 0

    def path(self, name='f.gem'):
        """Path of a scratch file, private to this worker."""
        return os.path.join(self.scratch, name)

    def state(self, obj):
        """Record a (canonical, JSON-able or hashable) model state that was reached."""
        self.states.add(obj if isinstance(obj, str) else digest(obj))

    def step(self, n=1):
        """Record n transitions executed on the real code."""
        self.transitions += n

    def outcome(self, name):
        """Count a distinct observed outcome class."""
        self.outcomes[name] += 1

    def case(self, case, nontrivial=True):
        """Run one case; turn a broken property into a recorded violation."""
        self.evaluations += 1
        if nontrivial:
            self.nontrivial.add(digest(case))
        if len(self.samples) < 2:
            self.samples.append(case)
        try:
            limit = getattr(self.module, 'CASE_SECONDS', CASE_SECONDS)
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                self.module.run_case(case, self)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            self.traces += 1
        except Violation as v:
            self._violation(case, v.message, v.key)
        except CaseTimeout:
            self._violation(case, f'no result within {limit} s (does not terminate)', None)
        except MemoryError:
            self._violation(case, 'memory exhausted', None)
        except Exception as e:  # an undeclared exception out of the code under test
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/gempakio/' in f.filename]
            if not where:
                # Raised by the oracle itself: resources, or a result of a shape no correct
                # implementation returns (None for a list, an attribute that is not there).
                if isinstance(e, OSError):
                    raise
                where = tb
            self._violation(
                case,
                f'unexpected {type(e).__name__}: {e} '
                f'[{os.path.basename(where[-1].filename)}:{where[-1].name}]',
                None,
            )

    def _violation(self, case, message, key):
        if key is not None:
            # One per key: a listed finding must not crowd out others of the same unit.
            if key in self.keys:
                self.repeated += 1
                return
            self.keys.add(key)
        elif len(self.violations) - len(self.keys) >= MAX_VIOL_PER_UNIT:
            self.suppressed += 1
            return
        self.violations.append({'case': case, 'message': message[:2000], 'key': key})


def _alarm(_sig, _frm):
    raise CaseTimeout


def scratch_root():
    """Parent of scratch directories."""
    return '/dev/shm' if os.access('/dev/shm', os.W_OK) else None


def _silence():
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')


def _work(job):
    name, units, scratch = job
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    _silence()
    mod = importlib.import_module(name)
    d = tempfile.mkdtemp(dir=scratch)
    out = []
    for unit in units:
        rec = Recorder(mod, d)
        try:
            mod.run_unit(unit, rec)
            err = None
        except CaseTimeout:
            err = 'timeout outside a case: ' + json.dumps(unit, default=str)[:300]
        except Exception:
            err = traceback.format_exc()
        out.append(
            {
                'evaluations': rec.evaluations,
                'transitions': rec.transitions,
                'traces': rec.traces,
                'states': rec.states,
                'nontrivial': rec.nontrivial,
                'outcomes': rec.outcomes,
                'samples': rec.samples,
                'violations': rec.violations,
                'suppressed': rec.suppressed,
                'error': err,
            }
        )
    shutil.rmtree(d, ignore_errors=True)
    return out


def known_findings(prop):
    """Keys listed for a property in known_findings.txt: {key: text}."""
    known = {}
    f = VERIF / 'known_findings.txt'
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith('known: '):
                fields = line[len('known: ') :].split(' ', 2)
                kv = dict(x.split('=', 1) for x in fields[:2])
                if kv.get('property') == prop:
                    known[kv['key']] = fields[2] if len(fields) > 2 else ''
    return known


def run_check(modname):
    """Run the check in module mc.checks.<modname>; return the process exit status."""
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    name = f'mc.checks.{modname}'
    _silence()
    mod = importlib.import_module(name)
    import gempakio

    src = os.path.realpath(gempakio.__file__)
    if not src.startswith(os.path.realpath(REPO) + '/src/'):
        print(f'ERROR: gempakio imported from {src}, not from {REPO}')
        return 2
    prop = mod.PROPERTY
    units = mod.plan(tier)
    scratch = tempfile.mkdtemp(prefix=f'mc-{prop}-', dir=scratch_root())
    nproc = int(os.environ.get('MC_PROCS', '0')) or os.cpu_count() or 4
    results = []
    known = known_findings(prop)
    fast = bool(os.environ.get('MC_FAILFAST'))  # development: stop at the first violation
    try:
        # Units are dealt out one at a time: order of execution does not affect the result.
        jobs = [(name, [u], scratch) for u in units]
        if fast:
            random.Random(seed).shuffle(jobs)
        if nproc == 1:
            for j in jobs:
                results += _work(j)
        else:
            with mp.get_context('fork').Pool(nproc) as pool:
                for r in pool.imap(_work, jobs, chunksize=max(1, len(jobs) // (nproc * 16))):
                    results += r
                    if fast and any(v['key'] not in known for u in r for v in u['violations']):
                        break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    tot = collections.Counter()
    states, nontrivial, outcomes = set(), set(), collections.Counter()
    samples, violations, errors = [], [], []
    for r in results:
        for k in ('evaluations', 'transitions', 'traces', 'suppressed'):
            tot[k] += r[k]
        states |= r['states']
        nontrivial |= r['nontrivial']
        outcomes += r['outcomes']
        if r['samples']:
            samples.append(r['samples'][0])
        violations += r['violations']
        if r['error']:
            errors.append(r['error'])
    if len(samples) > 6:
        step = len(samples) // 6
        samples = samples[::step][:6]

    seen_known = {}
    fresh = []
    for v in violations:
        if v['key'] is not None and v['key'] in known:
            seen_known.setdefault(v['key'], v)
        else:
            fresh.append(v)
    fresh.sort(key=lambda v: (len(json.dumps(v['case'], default=str)), v['message']))

    if mod.LEVEL == 'model_checking':
        cov = {
            'states': len(states),
            'transitions': tot['transitions'],
            'traces_validated_against_impl': tot['traces'],
        }
    else:
        cov = {'evaluations': tot['evaluations'], 'distinct_nontrivial': len(nontrivial)}
    cov['rule'] = mod.RULE
    cov['samples'] = samples
    cov['executions'] = tot['evaluations']
    cov['outcome_classes'] = dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40])
    cov['distinct_outcomes'] = len(outcomes)
    cov['bounds'] = mod.bounds(tier) if hasattr(mod, 'bounds') else {}
    cov['exhaustive'] = not errors
    ev = {
        'property': prop,
        'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed,
        'level': mod.LEVEL,
        'coverage': cov,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh) + tot['suppressed'],
    }
    evidence = VERIF / 'evidence' if not fast else Path(tempfile.gettempdir())
    evidence.mkdir(exist_ok=True)
    (evidence / f'{prop}.json').write_text(json.dumps(ev, indent=1, default=str) + '\n')

    print(
        f'{prop} tier={tier} executions={tot["evaluations"]} states={len(states)} '
        f'transitions={tot["transitions"]} distinct_cases={len(nontrivial)} '
        f'outcomes={len(outcomes)} wall={ev["wall_s"]}s'
    )
    for k, n in sorted(outcomes.items(), key=lambda kv: -kv[1])[:12]:
        print(f'  outcome {k}: {n}')
    for key, v in sorted(seen_known.items()):
        print(f'KNOWN-FINDING: property={prop} {known[key]}')
    if errors and not fresh:
        print('ERROR: a work unit did not complete')
        print(errors[0])
        return 2
    if fresh:
        outdir = VERIF / 'replays'
        outdir.mkdir(exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            art = outdir / f'{prop}-{digest(v["case"])}.json'
            art.write_text(
                json.dumps(
                    {'module': name, 'property': prop, 'case': v['case'],
                     'message': v['message'], 'key': v['key']},
                    indent=1, default=str,
                )
                + '\n'
            )
            if i == 0:
                print(f'VIOLATION property={prop} replay={art}')
            print(f'  {v["message"][:600]}')
            print(f'    case: {json.dumps(v["case"], default=str)[:600]}')
            print(f'    replay: {art}')
        print(f'  {len(fresh) + tot["suppressed"]} violating executions in all')
        if os.environ.get('MC_CLASSES'):
            classes = {}
            for v in fresh:
                c = re.sub(r'[-\d.]+', '#', v['message'])[:int(os.environ['MC_CLASSES']) if os.environ['MC_CLASSES'] != '1' else 60]
                classes.setdefault(c, [0, v])[0] += 1
            for c, (n, v) in sorted(classes.items(), key=lambda kv: -kv[1][0]):
                print(f'CLASS {n} {v["message"][:400]}')
                print(f'      {json.dumps(v["case"], default=str)[:700]}')
        return 1
    if tot['evaluations'] == 0:
        print('ERROR: nothing was explored')
        return 2
    return 0
