"""Make and confirm one planted bug: mkseed(id, property, [(file, old, new)], demo, needs, breaks).

The patch is applied to a scratch clone of /repo, where the stable tests and the demonstration run.
"""
import json
import os
import shutil
import subprocess
import tempfile

R = '/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable(root):
    out = tempfile.mkdtemp()
    sh(f'cd {root} && find src tests -name __pycache__ -type d -prune -exec rm -rf {{}} + ; '
       f'PYTHONPATH={root}/src HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC '
       f'PROJ_NETWORK=OFF /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 '
       f'-o junit_family=xunit2 --junitxml={out}/junit.xml tests; '
       f'/opt/venv/bin/python /opt/vp/results.py {out}/o.json junit:{out}/junit.xml')
    b = json.load(open('/opt/vp/BASELINE.json'))
    p = set(json.load(open(f'{out}/o.json')).get('passed', []))
    shutil.rmtree(out)
    return [t for t in b['stable'] if t not in p]


def demo_rc(d, root):
    r = sh(f'PYTHONPATH={root}/src bash {d}/demo.sh', cwd=root, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def mkseed(sid, prop, edits, demo, needs, breaks, extra=()):
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/demo.py', 'w').write(demo.lstrip('\n'))
    open(f'{d}/demo.sh', 'w').write(
        '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    for e in extra:
        shutil.copy(e, d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(f'{d}/meta.json', 'w'), indent=1)
    root = tempfile.mkdtemp() + '/repo'
    sh(f'git clone -q {R} {root}')
    clean = demo_rc(d, root)
    base = sh('git log --format=%H | tail -1', cwd=R).stdout.strip()
    for f, old, new, *nth in edits:
        p = f'{root}/src/gempakio/{f}'
        s = open(p).read()
        if nth:
            parts = s.split(old)
            assert len(parts) > nth[0] + 1, (sid, 'nth', s.count(old))
            s = old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:])
        else:
            assert s.count(old) == 1, (sid, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = sh('git diff', cwd=root).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    bad = demo_rc(d, root)
    miss = stable(root)
    orig = True
    # changed lines must be lines of the original repository
    lines = set()
    for f, *_ in edits:
        lines |= set(sh(f'git show {base}:src/gempakio/{f}', cwd=R).stdout.splitlines())
    gone = [x[1:] for x in diff.splitlines() if x.startswith('-') and not x.startswith('---')]
    for line in gone:
        if line not in lines:
            orig = False
            print('   not original:', line)
    if not gone:
        print('   removes no line')
    shutil.rmtree(os.path.dirname(root))
    ok = clean[0] == 0 and bad[0] != 0 and not miss and orig
    print(f'{"OK " if ok else "BAD"} {sid}: clean={clean[0]} bug={bad[0]} missing={miss}')
    if not ok:
        print('  clean out:', clean[1], '\n  bug out:', bad[1])
        shutil.rmtree(d)
    return ok
