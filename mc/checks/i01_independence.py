"""I01: file objects do not interfere, in any interleaving of their use."""

import itertools
import os
import sys
import threading

from mc import actors, core
from mc.actors import ACTORS
from mc.core import digest, expect

PROPERTY = 'I01'
LEVEL = 'model_checking'
CASE_SECONDS = 60
RULE = (
    'A case is one schedule of two (three) small programs that each use one file object of '
    'their own: an order of their steps, or two threads run under a controlled scheduler that '
    'preempts at given lines of gempakio. What each wrote and read is compared with the same '
    'program alone in a new interpreter. Non-trivial: distinct schedule.'
)
NAMES = list(ACTORS)
BLOCKED = [2.0]  # seconds until a thread counts as waiting for a lock
SRC = str(core.REPO / 'src' / 'gempakio') + os.sep


def kin(a, b):
    """The programs use the same class."""
    return a.split()[:2] == b.split()[:2]


def plan(tier):
    t = tier == 'thorough'
    want = actors.fresh(NAMES)
    units = []
    for a, b in itertools.combinations_with_replacement(NAMES, 2):
        units.append({'u': 'steps', 'who': [a, b], 'want': want, 'by': 1 if t else 2})
    for a, b in itertools.product(NAMES, repeat=2):
        units.append({'u': 'line', 'who': [a, b], 'want': want, 't': t})
    for a, b in itertools.product(NAMES, repeat=2):
        if t or (kin(a, b) and a < b):
            units += [{'u': 'two', 'who': [a, b], 'want': want, 't': t, 'part': p}
                      for p in range(8)]
    if t:
        for who in itertools.combinations(NAMES, 3):
            if len({n.split()[0] for n in who}) < 3:
                units.append({'u': 'three', 'who': who, 'want': want})
    return units


def bounds(tier):
    t = tier == 'thorough'
    return {
        'programs': len(NAMES),
        'step interleavings': 'every interleaving of the steps of every pair of programs'
                              + (', and of three programs of related kinds, two steps at a time'
                                 if t else ' (two steps at a time)'),
        'one preemption': 'every ordered pair of programs, preempted at '
                          + ('the first execution of every line (same class: the first 6 and the '
                             'last)' if t else 'the first execution of every function (two '
                             'of the same class: of every line)'),
        'two preemptions': ('every ordered pair' if t else 'pairs of the same class')
                           + ', at the first execution of every function of one and of '
                           + ('every' if t else 'every other') + ' function of the other',
    }


def orders(ns):
    """Every interleaving of programs of ns steps."""
    if not any(ns):
        yield []
        return
    for k, n in enumerate(ns):
        if n:
            for rest in orders([m - (j == k) for j, m in enumerate(ns)]):
                yield [k, *rest]


def events(name, rec, mode):
    """Points of a program at which another thread may run: occurrence numbers."""
    seen, log = {}, []

    def note(key):
        log.append(key)
        seen.setdefault(key, []).append(len(log) - 1)

    def tracer(frame, event, _arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if event == 'call':
            note((frame.f_code.co_filename, frame.f_code.co_firstlineno, 'call'))
            return tracer
        if event == 'line':
            note((frame.f_code.co_filename, frame.f_lineno))
        return tracer

    sys.settrace(tracer)
    try:
        go(name, os.path.join(rec.scratch, 'ev'))
    finally:
        sys.settrace(None)
    out = set()
    for key, at in seen.items():
        if mode == 'calls':
            if key[-1] == 'call':
                out.add(at[0])
        elif mode == 'lines':
            out.add(at[0])
            if key[-1] == 'call':
                out.add(at[-1])
        else:
            out |= {*at[:6], at[-1]}
    return sorted(out)


def go(name, d):
    """Run a program to its end."""
    os.makedirs(d, exist_ok=True)
    gen = ACTORS[name](d)
    while True:
        try:
            next(gen)
        except StopIteration as e:
            return digest(e.value)


def run_unit(unit, rec):
    who, want = unit['who'], unit['want']
    base = {'who': who, 'want': [want[n] for n in who]}
    u = unit['u']
    if u == 'steps':
        by = unit['by']
        ns = [-(-steps(w) // by) for w in base['want']]
        for order in orders(ns):
            rec.case({**base, 'k': 'steps', 'by': by, 'order': ''.join(map(str, order))})
    elif u == 'three':
        ns = [(steps(w) + 1) // 2 for w in base['want']]
        for order in orders(ns):
            rec.case({**base, 'k': 'steps', 'by': 2, 'order': ''.join(map(str, order))})
    elif u == 'line':
        near = kin(*who) and who[0] != who[1]
        mode = ('all' if near else 'lines') if unit['t'] else 'lines' if near else 'calls'
        for at in events(who[0], rec, mode):
            rec.case({**base, 'k': 'threads', 'at': [at, -1]})
    else:
        ea, eb = events(who[0], rec, 'calls'), events(who[1], rec, 'calls')
        for a in ea[unit['part'] :: 8]:
            for b in eb if unit['t'] else eb[::2]:
                rec.case({**base, 'k': 'threads', 'at': [a, b]})


def steps(want):
    """Number of steps, from an account '[steps, digest]'."""
    expect(want.startswith('['), lambda: f'a program fails alone: {want}')
    return int(want[1:].split(',')[0])


def account(name, want, got, how):
    ref = want.split('"')[1]
    expect(got == ref, lambda: f'{name}: what it wrote or read differs when {how}')


class Turn:
    """Two threads of which one runs: A until event a, B until event b, A to its end, B."""

    def __init__(self, who, at, dirs):
        self.who, self.at, self.dirs = who, at, dirs
        self.go = [threading.Event(), threading.Event()]
        self.out = [None, None]
        self.reached = [False, False]
        self.blocked = False

    def body(self, k):
        self.go[k].wait()
        count = [0]

        def local(frame, event, _arg):
            if event in ('call', 'line'):
                n = count[0]
                count[0] += 1
                if n == self.at[k]:
                    sys.settrace(None)
                    frame.f_trace = None
                    self.reached[k] = True
                    self.go[k].clear()
                    self.go[1 - k].set()
                    if not self.go[k].wait(BLOCKED[0]):
                        # The other thread waits for this one (a lock): no such schedule.
                        self.blocked = True
                        BLOCKED[0] = max(0.05, BLOCKED[0] / 2)
                    return None
            return local

        def start(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                return local(frame, event, arg)
            return None

        if self.at[k] >= 0:
            sys.settrace(start)
        try:
            self.out[k] = ('ok', go(self.who[k], self.dirs[k]))
        except Exception as e:
            self.out[k] = ('error', f'{type(e).__name__}: {e}')
        finally:
            sys.settrace(None)
            self.go[1 - k].set()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in (0, 1)]
        for t in ts:
            t.start()
        self.go[0].set()
        for t in ts:
            while t.is_alive():
                t.join(0.05)


def run_case(case, rec):
    who, want = case['who'], case['want']
    dirs = [os.path.join(rec.scratch, f'p{k}') for k in range(len(who))]
    for d in dirs:
        os.makedirs(d, exist_ok=True)
    for w in want:
        steps(w)
    if case['k'] == 'steps':
        gens = [ACTORS[n](d) for n, d in zip(who, dirs, strict=True)]
        out = [None] * len(who)
        for ch in case['order']:
            k = int(ch)
            for _ in range(case.get('by', 1)):
                if out[k] is not None:
                    break
                rec.step()
                try:
                    next(gens[k])
                except StopIteration as e:
                    out[k] = digest(e.value)
        for k, n in enumerate(who):
            account(n, want[k], out[k], f'its steps are interleaved {case["order"]} of {who}')
        rec.outcome('steps')
    else:
        turn = Turn(who, case['at'], dirs)
        turn.run()
        rec.step(2)
        for k, n in enumerate(who):
            kind, v = turn.out[k]
            how = f'threads {who} switch at events {case["at"]}'
            expect(kind == 'ok', lambda: f'{n}: {v} when {how}')
            account(n, want[k], v, how)
        rec.outcome('threads, one waits for the other' if turn.blocked else
                    f'threads, {sum(turn.reached)} preemptions')
    rec.state([case['k'], who, case.get('order') or case.get('at')])
