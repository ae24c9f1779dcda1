# -*- coding: utf-8 -*-
"""python3 tools/hit.py [--all-props] [ID...]: applies each planted bug to a scratch copy and runs its property's check there.  Not used by any check."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(id):
    sd = os.path.join(ROOT, 'seeded', id)
    prop = json.load(open(os.path.join(sd, 'meta.json')))['property']
    d = tempfile.mkdtemp(prefix='hit-')
    try:
        repo = os.path.join(d, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        subprocess.check_call(['git', 'apply', os.path.join(sd, 'patch.diff')], cwd=repo)
        t = time.time()
        r = subprocess.run(['python3', '-m', 'sa.check', prop], cwd=ROOT, env=dict(os.environ, SA_REPO=repo, VERIF_SEED='1', SA_EVIDENCE=d), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        hits = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        return id, prop, r.returncode, len(hits), time.time() - t, r.stdout[-600:] if r.returncode not in (0, 1) else (hits[0][:150] if hits else '')
    finally:
        shutil.rmtree(d)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    with cf.ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, ids):
            print('%-18s %s rc=%d hits=%d %4.0fs %s' % r, flush=True)


main()
