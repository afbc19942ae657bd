#!/usr/bin/env python3
"""mkseed.py <specs.txt> [id...]: (re)creates /verif/seeded/<id>/ from a spec file and confirms each one:
patch applies, builds, stable tests pass, demo passes on HEAD and fails with the patch.

Spec format, blocks separated by lines '====':
id: S01
property: A01
needs: ...
breaks: ...
file: projects/.../x.rs
<<<<
old text
----
new text
>>>>
demo:
rust main.rs text
"""
import json, os, re, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0 iff the program in main.rs sees the promised behaviour of the crate in /repo
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/lock.txt" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
sm_algorithm = { path = "$PWD/projects/sm-algorithm" }
num = "0.2"
[workspace]
T
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline
'''


DEMO2 = r'''#!/bin/bash
# exit 0 iff the program in main.rs sees the promised behaviour of the crates in /repo
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/lock.txt" "$d/Cargo.lock"
cp -r "$here/stubs" "$d/stubs"
pk() { mkdir -p "$d/$1"; printf '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2018"\n[lib]\npath = "%s"\n[dependencies]\n%s\n' "$2" "$3" "$4" > "$d/$1/Cargo.toml"; }
pk alg sm_algorithm "$PWD/projects/sm-algorithm/src/lib.rs" 'num = "0.2"
itertools = "0.9"'
pk parser sm_parser "$PWD/projects/sm-parser/src/lib.rs" 'pest = { version = "2.1.3", features = ["const_prec_climber"] }'
pk ast sm_ast "$PWD/projects/sm-ast/src/lib.rs" 'num = "0.2"
itertools = "0.9"
lazy_static = "1.4.0"
bigdecimal = { path = "../stubs/bigdecimal" }
text-utils = { path = "../stubs/text-utils" }
wolfram_wxf = { path = "../stubs/wolfram_wxf" }
sm_parser = { path = "../parser" }
sm_algorithm = { path = "../alg" }'
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
sm_algorithm = { path = "alg" }
sm_parser = { path = "parser" }
sm_ast = { path = "ast" }
wolfram_wxf = { path = "stubs/wolfram_wxf" }
bigdecimal = { path = "stubs/bigdecimal" }
num = "0.2"
[workspace]
members = [".", "alg", "parser", "ast", "stubs/*"]
T
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline 2>&1 | tail -c 3000; exit ${PIPESTATUS[0]}
'''

DEMO3 = DEMO2.replace('''
cat > "$d/Cargo.toml"''', '''
pk play sm_playground "$PWD/projects/sm-playground/src/lib.rs" 'lazy_static = "1.4.0"
wasm-bindgen = "0.2.67"
sm_ast = { path = "../ast" }'
cat > "$d/Cargo.toml"''').replace('sm_ast = { path = "ast" }\nwolfram_wxf = { path = "stubs/wolfram_wxf" }\nbigdecimal = { path = "stubs/bigdecimal" }\nnum = "0.2"', 'sm_ast = { path = "ast" }\nsm_playground = { path = "play" }').replace('"parser", "ast", "stubs/*"', '"parser", "ast", "play", "stubs/*"')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def parse(t):
    out = []
    for b in re.split(r'^====$', t, flags=re.M):
        if not b.strip():
            continue
        s = dict(edits=[])
        cur = None
        m = re.split(r'^demo:\n', b, flags=re.M)
        head, s['demo'] = m[0], m[1].strip('\n') + '\n'
        lines = head.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('file: '):
                cur = l[6:].strip()
            elif l == '<<<<':
                j = lines.index('----', i)
                k = lines.index('>>>>', j)
                s['edits'].append((cur, '\n'.join(lines[i + 1:j]), '\n'.join(lines[j + 1:k])))
                i = k
            elif ': ' in l:
                a, v = l.split(': ', 1)
                s[a] = v.strip()
            i += 1
        out.append(s)
    return out


def main():
    specs = parse(open(sys.argv[1]).read())
    want = sys.argv[2:]
    for s in specs:
        if want and s['id'] not in want:
            continue
        d = tempfile.mkdtemp(prefix='seed')
        try:
            sh(['git', 'clone', '-q', '/repo', d + '/r'])
            r = d + '/r'
            for f, a, b in s['edits']:
                p = os.path.join(r, f)
                t = open(p).read()
                assert t.count(a) == 1, (s['id'], f, a, t.count(a))
                open(p, 'w').write(t.replace(a, b))
            diff = sh('git diff', cwd=r).stdout
            od = os.path.join(HERE, 'seeded', s['id'])
            os.makedirs(od, exist_ok=True)
            open(od + '/patch.diff', 'w').write(diff)
            open(od + '/main.rs', 'w').write(s['demo'])
            big = s.get('crate') in ('ast', 'play')
            demo = {'ast': DEMO2, 'play': DEMO3}.get(s.get('crate'), DEMO)
            if s.get('flags'):
                demo = demo.replace('CARGO_TARGET_DIR=', 'RUSTFLAGS="%s" CARGO_TARGET_DIR=' % s['flags'])
            open(od + '/demo.sh', 'w').write(demo)
            if big:
                shutil.rmtree(od + '/stubs', ignore_errors=True)
                shutil.copytree(HERE + '/overlay/stubs', od + '/stubs')
            os.chmod(od + '/demo.sh', 0o755)
            shutil.copy(HERE + ('/tools/demo-play.lock' if s.get('crate') == 'play' else '/tools/demo-ast.lock' if big else '/tools/demo.lock'), od + '/lock.txt')
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(od + '/meta.json', 'w'), indent=1)
            env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true')
            # stable tests, in a scratch workspace of the same shape as /opt/vp/ws
            os.makedirs(d + '/ws')
            shutil.copy('/opt/vp/ws/Cargo.toml', d + '/ws/')
            shutil.copy('/opt/vp/ws/Cargo.lock', d + '/ws/')
            os.makedirs(d + '/ws/projects')
            os.symlink(r + '/projects/sm-algorithm', d + '/ws/projects/sm-algorithm')
            t = sh('cargo test --offline --workspace --no-fail-fast', cwd=d + '/ws', env=dict(env, CARGO_TARGET_DIR=d + '/tt'))
            okt = t.returncode == 0
            m = re.findall(r'(\d+) passed', t.stdout)
            good = sh([od + '/demo.sh'], cwd='/repo')
            bad = sh([od + '/demo.sh'], cwd=r)
            print(s['id'], s['property'], 'tests', okt, m, 'demo clean', good.returncode, 'demo patched', bad.returncode,
                  'OK' if okt and good.returncode == 0 and bad.returncode not in (0, 124) and ('could not compile' in bad.stdout) == bool(s.get('flags')) else '*** NOT KEPT')
            if not okt:
                print(t.stdout[-1500:])
            if good.returncode:
                print(good.stdout[-1500:])
            if 'could not compile' in bad.stdout:
                print(bad.stdout[-1500:])
        finally:
            shutil.rmtree(d)


main()
