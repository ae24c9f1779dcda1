# -*- coding: utf-8 -*-
"""
python3 tools/plant.py [ID...]: writes seeded/<ID>/ from the tables in tools/bugs*.py and verifies each bug in a scratch copy of /repo:
the tests still pass, demo.sh passes without and fails with the change.  Not used by any check.
"""
import concurrent.futures as cf
import importlib.util
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/pypyvenv/bin/python'
HEAD = '''#!/bin/bash
# cwd: the repository
export PYTHONPATH="$PWD"
exec %s "$(dirname "$0")/demo.py"
''' % PY
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None


def bugs():
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'bugs*.py'))):
        s = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        out += m.BUGS
    return out


def run(cmd, cwd, t=600):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, env=dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))


def verify(b):
    d = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(d, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        sd = os.path.join(d, 'seed')
        os.makedirs(sd)
        with open(os.path.join(sd, 'demo.py'), 'w') as f:
            f.write(b['demo'])
        with open(os.path.join(sd, 'demo.sh'), 'w') as f:
            f.write(HEAD)
        os.chmod(os.path.join(sd, 'demo.sh'), 0o755)
        r = run(['bash', os.path.join(sd, 'demo.sh')], repo, 300)
        if r.returncode != 0:
            return b, 'demo fails on the unchanged tree: ' + r.stdout[-600:]
        for fn, old, new in b['edits']:
            p = os.path.join(repo, fn)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                return b, 'edit: %d matches in %s of %r' % (s.count(old), fn, old[:60])
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=repo, text=True)
        r = run(['bash', os.path.join(sd, 'demo.sh')], repo, 300)
        if r.returncode == 0:
            return b, 'demo passes with the change'
        msg = r.stdout[-300:]
        # the tests
        t = run([PY, '-m', 'pytest', '-q', '-x', 'tests', '-p', 'no:cacheprovider'], repo, 900)
        if t.returncode != 0:
            return b, 'tests fail: ' + t.stdout[-700:]
        out = os.path.join(ROOT, 'seeded', b['id'])
        os.makedirs(out, exist_ok=True)
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(sd, n), os.path.join(out, n))
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(diff)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
        return b, 'kept: ' + msg.strip().splitlines()[-1] if msg.strip() else 'kept'
    except Exception as e:
        return b, 'error %r' % e
    finally:
        shutil.rmtree(d)


def main():
    ids = sys.argv[1:]
    todo = [b for b in bugs() if (b['id'] in ids if ids else not os.path.exists(os.path.join(ROOT, 'seeded', b['id'])))]
    with cf.ThreadPoolExecutor(4) as ex:
        for b, m in ex.map(verify, todo):
            print(b['id'], b['prop'], m, flush=True)


main()
