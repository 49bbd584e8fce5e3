#!/usr/bin/env python3
'''Applies a bundle of behaviour-preserving edits to a scratch copy and runs checks against it: they must
stay quiet.  usage: refactor.py BUNDLE [ID ...]'''
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))


def main():
    name = sys.argv[1]
    ids = sys.argv[2:]
    edits = importlib.import_module('refactors_' + name).R
    if not ids:
        ids = [c['property'] for c in json.load(open(os.path.join(HERE, '..', 'MANIFEST.json')))['checks']]
    tmp = tempfile.mkdtemp(prefix='refactor.', dir='/tmp')
    repo = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', repo, symlinks=True)
    bad = False
    try:
        for path, old, new in edits:
            p = os.path.join(repo, 'necroassembler', path)
            s = open(p).read()
            if s.count(old) != 1:
                print('EDIT does not apply once: %s %r' % (path, old[:60]))
                bad = True
            open(p, 'w').write(s.replace(old, new))
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=repo, capture_output=True, text=True)
        print('tests:', t.stdout.strip().split('\n')[-1])
        env = dict(os.environ, NECRO_REPO=repo, VERIF_EVIDENCE=os.path.join(tmp, 'evidence'))
        for i in ids:
            r = subprocess.run([sys.executable, os.path.join(HERE, '..', 'check.py'), i], env=env, capture_output=True, text=True)
            last = [x for x in r.stdout.strip().split('\n') if 'obligations' in x]
            state = 'ok' if r.returncode == 0 else 'EXIT %d' % r.returncode
            print(i, state, last[-1] if last else r.stdout[-300:] + r.stderr[-800:], flush=True)
            if r.returncode:
                for x in r.stdout.split('\n')[:4]:
                    print('   ', x)
            rep = os.path.join(tmp, 'evidence', i + '.report.txt')
            if os.path.exists(rep):
                shutil.copy(rep, '/tmp/refactor.%s.%s.txt' % (name, i))
    finally:
        shutil.rmtree(tmp)
    return bad


if __name__ == '__main__':
    sys.exit(main())
