#!/usr/bin/env python3
'''Build /verif/seeded/<id>/ from tools/seeds_*.py and try the checks on each planted bug (in scratch copies).

seed.py [ID...]     write, validate (tests pass, demo 0 / nonzero) and run the property's check
'''
import glob, importlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build: 0 when the property holds, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec %s "$here/demo.py"
''' % PY
HELP = '''import os, sys, tempfile
from necroassembler.exceptions import AssemblerException


def asm(cls, *sources, link=True, linker=None):
    a = cls()
    for s in sources:
        a.assemble(s)
    if link:
        a.link(linker=linker)
    return bytes(a.assembled_bytes)


def refused(f, *args, kind=AssemblerException):
    try:
        f(*args)
    except kind:
        return True
    return False


'''


def load():
    out = []
    for p in sorted(glob.glob(HERE + '/tools/seeds_*.py')):
        m = importlib.import_module('tools.' + os.path.basename(p)[:-3])
        out += m.SEEDS
    ids = [s['id'] for s in out]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(s):
    d = '%s/seeded/%s' % (HERE, s['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    res = [s['id'], s['property']]
    try:
        sh(['cp', '-a', os.environ.get('NECRO_REPO', '/repo') + '/.', w])
        sh(['git', 'checkout', '-q', '--', '.'], cwd=w)
        open(d + '/demo.py', 'w').write(HELP + s['demo'].strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(['bash', d + '/demo.sh'], cwd=w)
        base = sh(['git', 'diff', '7e39581', 'HEAD', '--'], cwd=w).stdout
        added = {l[1:].strip() for l in base.splitlines() if l.startswith('+')}
        for f, old, new in s['edits']:
            p = '%s/necroassembler/%s' % (w, f)
            t = open(p).read()
            if t.count(old) != 1:
                return res + ['EDIT-COUNT %d %r' % (t.count(old), old)]
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], cwd=w).stdout
        open(d + '/patch.diff', 'w').write(diff)
        rem = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if rem and all(l in added for l in rem):
            res.append('ONLY-FIX-LINES')
        r1 = sh(['bash', d + '/demo.sh'], cwd=w)
        t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=10', 'tests'], cwd=w,
               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
        res.append('demo %d/%d' % (r0.returncode, r1.returncode))
        if r0.returncode != 0:
            res.append('DEMO-FAILS-ON-BASE ' + r0.stderr[-300:])
        if r1.returncode == 0:
            res.append('DEMO-PASSES-WITH-BUG')
        if t.returncode != 0:
            res.append('TESTS-FAIL ' + t.stdout[-200:])
        from checks import registry
        for pid in [s['property']] + s.get('also', []):
            if pid in registry.CHECKS:
                v = os.path.join(w, '.verif')
                os.makedirs(v, exist_ok=True)
                c = sh(['python3', HERE + '/check.py', pid], cwd=HERE, env=dict(os.environ, NECRO_REPO=w, VERIF_JOBS='2', VERIF_EVIDENCE=v))
                hit = c.returncode == 1 and 'VIOLATION property=%s' % pid in c.stdout
                res.append('%s %s' % (pid, 'CAUGHT' if hit else 'missed rc=%d' % c.returncode))
                if not hit:
                    res.append(c.stdout[-300:])
            else:
                res.append('%s unchecked' % pid)
        return res
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    seeds = load()
    if sys.argv[1:]:
        seeds = [s for s in seeds if any(a in s['id'] or a == s['property'] for a in sys.argv[1:])]
    with ThreadPoolExecutor(5) as ex:
        rp = HERE + '/tools/seed_results.json'
        results = json.load(open(rp)) if os.path.exists(rp) else {}
        for r in ex.map(one, seeds):
            print(' | '.join(r), flush=True)
            results[r[0]] = ', '.join(x for x in r[2:] if 'CAUGHT' in x or 'missed' in x).replace('CAUGHT', 'caught') or 'no check'
        ids = {s['id'] for s in load()}
        json.dump({k: v for k, v in sorted(results.items()) if k in ids}, open(rp, 'w'), indent=1)
