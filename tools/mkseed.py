#!/usr/bin/env python3
"""Turns the definitions in tools/seeds.py into seeded/<id>/ and confirms each in a scratch copy: builds, passes the stable tests, demo 0 without and
nonzero with the patch.  usage: mkseed.py [id...]"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from seeds import SEEDS
PY = '/opt/venv/bin/python'
BASE = 'd566145'
DEMO = '''#!/bin/bash
# Runs demo.py on the library in the current directory (a checkout of the repository); all files it makes are in a scratch directory.
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
ln -s "$PWD/pylib" "$T/amara3"
D=$(cd "$(dirname "$0")" && pwd)
cd "$T" || exit 2
PYTHONDONTWRITEBYTECODE=1 REPO="$OLDPWD" timeout 120 /opt/venv/bin/python -c 'import runpy, sys
sys.path.insert(0, sys.argv[1])
runpy.run_path(sys.argv[2], run_name="__main__")' "$T" "$D/demo.py" > "$T/out" 2>&1
rc=$?
grep -v '^WARNING\\|^Generating' "$T/out"
exit $rc
'''


def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(ids):
    stable = json.load(open('/opt/vp/BASELINE.json'))
    bad = []
    scr = tempfile.mkdtemp(prefix='seed')
    try:
        repo = os.path.join(scr, 'repo')
        sh('cp', '-a', '/repo', repo)
        path = os.path.join(scr, 'path')
        os.mkdir(path)
        os.symlink(os.path.join(repo, 'pylib'), os.path.join(path, 'amara3'))
        env = dict(os.environ, PYTHONPATH=path + ':' + repo + '/build/lib', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        for sid, s in SEEDS.items():
            if ids and sid not in ids: continue
            sh('git', 'checkout', '-q', '--', '.', cwd=repo)
            for junk in ('parsetab.py', 'parser.out'):
                p = os.path.join(repo, 'pylib/uxml/uxpath', junk)
                if os.path.exists(p): os.remove(p)
            d = os.path.join(ROOT, 'seeded', sid)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            before = sh('bash', os.path.join(d, 'demo.sh'), cwd=repo)
            ok = True
            for f, old, new in s['edits']:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1: ok = False; print(sid, 'EDIT', f, t.count(old), repr(old))
                else: open(p, 'w').write(t.replace(old, new))
                o = sh('git', 'show', BASE + ':' + f, cwd=repo).stdout.splitlines()
                missing = [l for l in old.splitlines() if l not in o and l + '' not in ''.join(o) and not any(l in x for x in o)]
                if missing: print(sid, 'note: not an original line:', missing)
            diff = sh('git', 'diff', cwd=repo).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            for junk in ('parsetab.py', 'parser.out'):
                p = os.path.join(repo, 'pylib/uxml/uxpath', junk)
                if os.path.exists(p): os.remove(p)
            after = sh('bash', os.path.join(d, 'demo.sh'), cwd=repo)
            t = sh(PY, '-c', 'import sys; sys.path.insert(0, %r); import pytest; sys.exit(pytest.main(["-q", "-x", "-p", "no:cacheprovider", "test"]))' % path, cwd=repo, env=env)
            good = ok and before.returncode == 0 and after.returncode not in (0, 2) and ' passed' in t.stdout and 'failed' not in t.stdout and 'error' not in t.stdout.lower().split('passed')[-1]
            print('%-28s %s %s demo %d/%d  %s' % (sid, s['property'], 'ok ' if good else 'BAD', before.returncode, after.returncode, t.stdout.strip().splitlines()[-1][:60]))
            if not good: bad.append(sid); print(before.stdout[-300:], '---', after.stdout[-500:], t.stdout[-600:] if 'failed' in t.stdout else '')
    finally:
        shutil.rmtree(scr)
    print('bad:', bad)
main(sys.argv[1:])
