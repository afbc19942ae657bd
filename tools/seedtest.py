#!/usr/bin/env python3
"""Runs every check on each seeded bug, in scratch copies (never /repo). usage: seedtest.py [id-substr] ; prints which checks fire."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(HERE + '/MANIFEST.json'))
ids = [c['property'] for c in man['checks']]
only_own = '-o' in sys.argv
args = [a for a in sys.argv[1:] if not a.startswith('-')]


def one(s):
    d = tempfile.mkdtemp(prefix='sdt')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
        subprocess.check_call(['git', '-C', d + '/r', 'apply', HERE + '/seeded/%s/patch.diff' % s])
        own = json.load(open(HERE + '/seeded/%s/meta.json' % s))['property']
        fired, err = [], []
        for i in ([own] if only_own else ids):
            e = dict(os.environ, SA_REPO=d + '/r', SA_EVID=d + '/ev')
            try:
                r = subprocess.run([sys.executable, 'check.py', i], cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
                if r.returncode == 1 and 'VIOLATION property=%s' % i in r.stdout:
                    fired.append(i)
                elif r.returncode != 0:
                    err.append((i, r.returncode))
            except subprocess.TimeoutExpired:
                err.append((i, 'timeout'))
        return '%s own=%s fired=%s err=%s %s' % (s, own, ','.join(fired), err, 'caught' if own in fired else '*** MISSED')
    finally:
        shutil.rmtree(d)


seeds = sorted(s for s in os.listdir(HERE + '/seeded') if not args or any(a in s for a in args))
with ThreadPoolExecutor(4) as ex:
    for l in ex.map(one, seeds):
        print(l, flush=True)
