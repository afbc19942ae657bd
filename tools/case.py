#!/usr/bin/env python3
"""dump the program of one corpus case: case.py NAME OUTDIR"""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa'))
import corpus, extract
c = [c for c in corpus.cases() if c[1] == sys.argv[1]][0]
tmp = tempfile.mkdtemp(prefix='case')
repo = os.path.join(tmp, 'repo')
shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('target', '.git'))
for path, old, new in c[4]:
    f = os.path.join(repo, path)
    s = open(f).read()
    assert s.count(old) == 1, old
    open(f, 'w').write(s.replace(old, new))
os.environ['SA_REPO'] = repo
try:
    for k, d in extract.extract(tuple(sys.argv[3:] or ['alg'])).items():
        os.makedirs(sys.argv[2], exist_ok=True)
        json.dump(d, open(os.path.join(sys.argv[2], extract.CRATES[k] + '.json'), 'w'))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print(c[3])
