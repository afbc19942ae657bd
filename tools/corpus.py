#!/usr/bin/env python3
"""Self-test of the checks on edited copies of the repository.

corpus.py [-k substr] [-p]  : runs every case of corpus/*.txt
A case is a block
   === name | expect: quiet | checks: A01 A02
   --- path
   <<<<
   old text
   ====
   new text
   >>>>
`expect` is quiet (behaviour unchanged), limit (unchanged, but known to be out of
reach of the machinery) or the ids that must fire."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases():
    out = []
    for fn in sorted(os.listdir(os.path.join(HERE, 'corpus'))):
        if not fn.endswith('.txt'):
            continue
        txt = open(os.path.join(HERE, 'corpus', fn)).read()
        for blk in re.split(r'(?m)^=== ', txt)[1:]:
            head, body = blk.split('\n', 1)
            name, exp, chk = [x.strip() for x in head.split('|')]
            exp = exp.split(':', 1)[1].split()
            chk = chk.split(':', 1)[1].split()
            edits = []
            for sec in re.split(r'(?m)^--- ', body)[1:]:
                path, rest = sec.split('\n', 1)
                for m in re.finditer(r'(?ms)^<<<<\n(.*?)^====\n(.*?)^>>>>', rest):
                    edits.append((path.strip(), m.group(1), m.group(2)))
            out.append((fn, name, exp, chk, edits))
    return out


def run(case):
    fn, name, exp, chk, edits = case
    tmp = tempfile.mkdtemp(prefix='corpus')
    log = []
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('target', '.git'))
        for path, old, new in edits:
            f = os.path.join(repo, path)
            s = open(f).read()
            if s.count(old) != 1:
                return name, False, ['edit does not apply (%d matches): %s' % (s.count(old), old[:60])]
            open(f, 'w').write(s.replace(old, new))
        fired = []
        for c in chk:
            env = dict(os.environ, SA_REPO=repo, SA_EVID=os.path.join(tmp, 'ev'))
            t0 = time.time()
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), c], env=env, capture_output=True, text=True)
            if time.time() - t0 > 40:
                log.append('SLOW %s %.0fs' % (c, time.time() - t0))
            if r.returncode == 1 and 'VIOLATION property=%s' % c in r.stdout:
                fired.append(c)
                log.append(c + ': ' + r.stdout[:700])
            elif r.returncode:
                log.append('ERROR %s rc=%d %s' % (c, r.returncode, (r.stdout + r.stderr)[-1200:]))
                fired.append('ERR')
        if exp == ['limit']:
            # a rewrite that is known to be out of reach: an answer is enough
            return name, 'ERR' not in fired, log
        want = [] if exp == ['quiet'] else exp
        # a bug must be reported by the properties it breaks; a function that can no longer
        # be followed may make others of the same family report too
        return name, set(want) <= set(fired) and 'ERR' not in fired if want else not fired, log
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    k = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else ''
    cs = [c for c in cases() if k in c[0] + ':' + c[1]]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get('J', 6))) as ex:
        for name, good, log in ex.map(run, cs):
            if not good:
                bad += 1
            print('%-4s %s' % ('ok' if good else 'BAD', name), flush=True)
            if not good or any(l.startswith('SLOW') for l in log) or '-v' in sys.argv:
                for l in log:
                    print('      ' + l.replace('\n', '\n      '))
    print('%d cases, %d bad' % (len(cs), bad))
    sys.exit(bad > 0)
