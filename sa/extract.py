"""Build the compiler driver and dump the type-checked program of /repo's
current working tree.  Nothing is reused between runs except the driver binary
(keyed by the hash of its source)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TC = '+nightly'


class ExtractError(Exception):
    pass


def sysroot():
    return subprocess.check_output(['rustc', TC, '--print', 'sysroot'], text=True).strip()


def driver():
    src = os.path.join(HERE, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = os.path.join(HERE, 'build')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'sadrv-' + h)
    if not os.path.exists(out):
        tmp = tempfile.mkdtemp(prefix='sadrv')
        try:
            r = subprocess.run(['rustc', TC, '--edition', '2021', '-O', '-o', os.path.join(tmp, 'drv'), src],
                               capture_output=True, text=True, cwd=tmp)
            if r.returncode:
                raise ExtractError('driver does not build:\n' + r.stderr[-4000:])
            t2 = out + '.%d' % os.getpid()
            shutil.copy2(os.path.join(tmp, 'drv'), t2)
            os.replace(t2, out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def unsafe_uses(log, w):
    """places where rustc's `unsafe_code` lint (forced on) found unsafe code in crate w"""
    d = {'alg': 'sm-algorithm', 'parser': 'sm-parser', 'ast': 'sm-ast', 'play': 'sm-playground', 'canary': 'canary'}[w]
    return sorted(set(re.findall(r'(?m)^\S*?(%s/\S+?:\d+):\d+: warning: (.*unsafe.*|.*no_mangle.*|.*export_name.*|.*link_section.*)$' % d, log)))


CRATES = {'alg': 'sm_algorithm', 'parser': 'sm_parser', 'ast': 'sm_ast', 'play': 'sm_playground', 'canary': 'sa_canary'}
INLINE = 'core::option::,core::result::,std::option::,std::result::'


def extract(which=('alg',), profile='dev'):
    """{crate key: parsed dump}"""
    drv = driver()
    tmp = tempfile.mkdtemp(prefix='saext')
    try:
        out = os.path.join(tmp, 'out')
        ws = os.path.join(tmp, 'ws')
        os.makedirs(out)
        shutil.copytree(os.path.join(HERE, 'overlay'), ws, ignore=shutil.ignore_patterns('target'))
        repo = os.environ.get('SA_REPO')            # self-tests of the checks analyse a scratch copy
        if repo:
            for w in CRATES:
                f = os.path.join(ws, w, 'Cargo.toml')
                s = open(f).read().replace('"/repo/', '"%s/' % repo.rstrip('/'))
                open(f, 'w').write(s)
        env = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR')}
        env.update(SA_OUT=out, SA_CRATES=','.join(CRATES.values()), SA_INLINE=INLINE,
                   LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=drv,
                   CARGO_TARGET_DIR=os.path.join(tmp, 't'), CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
        cmd = ['cargo', TC, 'check', '--offline', '--locked', '-q', '--message-format=short']
        if profile == 'release':
            cmd.append('--release')
        for w in which:
            cmd += ['-p', CRATES[w]]
        r = subprocess.run(cmd, cwd=ws, env=env, capture_output=True, text=True)
        if r.returncode:
            raise ExtractError('the analysed crates do not compile:\n' + r.stderr[-4000:])
        res = {}
        for w in which:
            f = os.path.join(out, CRATES[w] + '.json')
            if not os.path.exists(f):
                raise ExtractError('no dump for %s\n%s' % (w, r.stderr[-2000:]))
            res[w] = json.load(open(f))
            res[w]['unsafe'] = unsafe_uses(r.stderr, w)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1:] == ['setup']:
        driver()
    else:
        for k, d in extract(tuple(sys.argv[2:] or ['alg'])).items():
            json.dump(d, open(os.path.join(sys.argv[1], CRATES[k] + '.json'), 'w'))
