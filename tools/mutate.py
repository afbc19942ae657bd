#!/usr/bin/env python3
"""Mechanical mutants of sm_algorithm: which survive the stable tests and the checks?
usage: mutate.py [file-substr] ; prints one line per surviving or suspicious mutant."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'projects/sm-algorithm/src/'
FILES = {'basic/mod.rs': ['A01', 'A02', 'A03', 'A04', 'A05', 'A06'], 'gamma/factorial.rs': ['A07'], 'linear/fibonacci.rs': ['A08'],
         'prime/prime_count.rs': ['A09'], 'prime/prime_sum.rs': ['A10', 'A11']}
SUBS = [(r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r'\b2\b', '1'), (r'(?<=[\w)]) \+ (?=[\w(&])', ' - '), (r'(?<=[\w)]) - (?=[\w(&])', ' + '),
        (r' \* ', ' + '), (r' % ', ' / '), (r' / ', ' * '), (r' / ', ' % '), (r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' < ', ' > '), (r' <= ', ' < '),
        (r' > ', ' >= '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\.rev\(\)', ''), (r'\.\.=', '..'), (r'(?<!\.)\.\.(?![.=])', '..='),
        (r'\bzero\b', 'one'), (r'\bone\b', 'zero'), (r'\bis_zero\b', 'is_one'), (r'\bis_one\b', 'is_zero'), (r'\bis_even\b', 'is_odd'), (r'\bis_negative\b', 'is_positive'),
        (r'\bx\b', 'y'), (r'\ba\b', 'b'), (r'\bb\b', 'a'), (r'\bgcd\.x\b', 'gcd.y'), (r'\bgcd\.y\b', 'gcd.x'), (r'\bu_i\b', 'm_i'), (r'\bm_i\b', 'm_j'), (r'\bm_j\b', 'm_i'),
        (r'\bt\b', 'v_j'), (r'\bv_j\b', 't'), (r'\bNone\b', 'Some(BigInt::zero())'), (r'\bu\b', 'm'), (r'\bm\b', 'u'), (r'\bto_u32\b', 'to_u16'), (r'\bto_isize\b', 'to_i32'), (r'\bto_u64\b', 'to_u32'),
        (r'OverFlow', 'ComplexInfinity'), (r'ComplexInfinity', 'OverFlow'), (r'Indeterminate', 'OverFlow'), (r'Unimplemented', 'Indeterminate'), (r'-BigInt', 'BigInt'),
        (r'u32::MAX', 'u16::MAX'), (r'\bif ', 'if !'), (r'<', '>'), (r'\bp2\b', 'p'), (r'\bsp\b', '0'), (r'\bx\.0\b', 'x.1'), (r'\bx\.1\b', 'x.0'), (r'\ba / &gcd\b', 'a'), (r'-= ', '+= '), (r'wrapping_sub', 'wrapping_add'),
        (r'break;', ''), (r'm\.insert\(.*\);', ''), (r'\? *;', ';')]


def sh(c, cwd, env=None, t=200):
    try:
        r = subprocess.run(c, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def muts():
    for f, chk in FILES.items():
        if len(sys.argv) > 1 and sys.argv[1] not in f:
            continue
        lines = open('/repo/' + B + f).read().split('\n')
        intest = False
        for i, l in enumerate(lines):
            if l.strip() == '#[test]':
                intest = True
            if intest:
                if l == '}':
                    intest = False
                continue
            if l.strip().startswith(('//', 'use', '#', 'table.insert')):
                continue
            for pat, rep in SUBS:
                for mm in re.finditer(pat, l):
                    n = l[:mm.start()] + rep + l[mm.end():]
                    if n != l:
                        yield f, i, l, n, chk


def one(m):
    f, i, l, n, chk = m
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('target', '.git'))
        p = d + '/r/' + B + f
        ls = open(p).read().split('\n')
        ls[i] = n
        open(p, 'w').write('\n'.join(ls))
        os.makedirs(d + '/ws/projects')
        shutil.copy('/opt/vp/ws/Cargo.toml', d + '/ws/')
        shutil.copy('/opt/vp/ws/Cargo.lock', d + '/ws/')
        os.symlink(d + '/r/projects/sm-algorithm', d + '/ws/projects/sm-algorithm')
        shutil.copytree('/tmp/muttarget', d + '/t')
        env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=d + '/t')
        rc, o = sh('cargo test --offline --workspace --lib', d + '/ws', env, 60)
        if rc:
            return m, 'tests'
        fired = []
        for c in chk:
            rc, o = sh('%s %s/check.py %s' % (sys.executable, HERE, c), HERE, dict(os.environ, SA_REPO=d + '/r', SA_EVID=d + '/ev'), 400)
            if rc == 1:
                fired.append(c)
            elif rc:
                fired.append('ERR%d:%s' % (rc, o[-200:]))
        return m, ','.join(fired) or 'SURVIVES'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    # a warm target directory
    shutil.rmtree('/tmp/muttarget', ignore_errors=True)
    sh('cargo test --offline --workspace --lib --no-run', '/opt/vp/ws', dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR='/tmp/muttarget'))
    ms = list(muts())
    print(len(ms), 'mutants', flush=True)
    st = {}
    with ThreadPoolExecutor(7) as ex:
        for m, r in ex.map(one, ms):
            k = 'survives' if r == 'SURVIVES' else 'err' if 'ERR' in r else 'tests' if r == 'tests' else 'caught'
            st[k] = st.get(k, 0) + 1
            if k in ('survives', 'err'):
                print('%s:%d %s\n   - %s\n   + %s' % (m[0], m[1] + 1, r, m[2].strip(), m[3].strip()), flush=True)
    print(st)
    shutil.rmtree('/tmp/muttarget', ignore_errors=True)


main()
