"""A12 (safe Rust only) and A13 (no hidden inputs or effects): queries over the
resolved call graph of every crate, the rules being proved alive on the canary
crate of the overlay on every run."""
from interp import Program

IO = ('std::io::', 'std::fs::', 'std::net::', 'std::process::', 'std::os::', 'std::path::Path::exists', 'std::path::Path::read',
      'std::path::Path::is_', 'std::path::Path::metadata', 'std::path::Path::canonicalize')
ENV = ('std::env::', 'std::time::', 'std::thread::', 'rand::', 'getrandom::', 'std::hash::RandomState', 'std::collections::hash_map::RandomState',
       'std::intrinsics::const_allocate')
PURE_IO = ('std::io::Error::', 'std::io::ErrorKind', 'std::io::Result', 'std::process::ExitCode')
MUTABLE = ('Mutex', 'RwLock', 'RefCell', 'std::cell::Cell', 'UnsafeCell', 'Atomic', 'OnceCell<std::cell', 'ReentrantLock')


def kind_of(path):
    if path.startswith(PURE_IO):
        return None
    if path.startswith(IO):
        return 'io'
    if path.startswith(ENV) and 'RandomState::new' not in path:
        return 'env'
    return None


def mutable_static(P, name):
    """does static `name` hold interior-mutable (or `static mut`) storage?"""
    it = P.statics.get(name)
    if it is None or it['ty'] is None:
        return None
    seen = set()

    def walk(t):
        if t in seen:
            return False
        seen.add(t)
        T = P.types[t]
        if T['k'] == 'adt':
            n = T['adt']
            base = n.split('<')[0]
            if base.endswith(('LazyLock', 'OnceLock', 'Lazy', 'OnceCell', 'LazyCell')):
                return any(walk(a) for a in T['args'] if isinstance(a, int))
            if any(m in base for m in MUTABLE):
                return True
            kids = [a for a in T['args'] if isinstance(a, int)]
            if T['kind'] != 'union':
                for v in T['variants']:
                    kids += [f[1] for f in v['fields'] if f[1] is not None]
            return any(walk(a) for a in kids)
        if T['k'] == 'tuple':
            return any(walk(a) for a in T['el'])
        if T['k'] in ('array', 'slice', 'ref'):
            return walk(T['el'])
        if T['k'] == 'ptr':
            return True
        return False
    return walk(it['ty'])


def returning(P, body):
    """blocks from which a return is reachable"""
    B = body['blocks']
    pred = {i: [] for i in range(len(B))}
    for i, b in enumerate(B):
        for y in P.succs(b):
            pred[y].append(i)
    good, w = set(), [i for i, b in enumerate(B) if b['t'][0] == 'return']
    while w:
        i = w.pop()
        if i not in good:
            good.add(i)
            w += pred[i]
    return good


def consts(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'const' and isinstance(x[1], dict):
            yield x[1]
        else:
            for y in x:
                yield from consts(y)


def static_names(v):
    if isinstance(v, dict):
        if 'static' in v:
            yield v['static']
        for y in v.values():
            yield from static_names(y)
    elif isinstance(v, list):
        for y in v:
            yield from static_names(y)


def bodies(P):
    for i in P.d['instances']:
        if i['body'] and i['crate'] == P.d['crate']:
            yield i['name'], i['body']
    for g in P.d['generic']:
        yield g['name'], g['body']


def short(n):
    n = n.split('::{closure')[0]
    while n.endswith('>') and '::<' in n:       # type arguments of an instance
        d = 0
        for i in range(len(n) - 1, -1, -1):
            d += n[i] == '>' and n[i - 1] != '-'
            d -= n[i] == '<'
            if d == 0:
                break
        if n[i - 2:i] != '::':
            break
        n = n[:i - 2]
    return n


def effects(P):
    """{(function, class, what)} on paths that can return, plus the local caller map"""
    eff, callers, nb, nc = {}, {}, 0, 0
    for name, body in bodies(P):
        if P.statics.get(name, {}).get('kind') == 'const':
            continue
        nb += 1
        good = returning(P, body)
        me = short(name)
        for bi in good:
            blk = body['blocks'][bi]
            uses = []
            for c in list(consts(blk['s'])) + list(consts(blk['t'])):
                T = P.types[c['t']]
                if T['k'] == 'fndef':
                    uses.append(T)
                for s in static_names(c['v']):
                    it = P.statics.get(s)
                    if it is not None and mutable_static(P, s):
                        eff.setdefault((me, 'state', s), blk['t'][-1] if isinstance(blk['t'][-1], str) else '')
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'tls':
                    eff.setdefault((me, 'state', 'thread-local %s' % s[2][1]), s[3])
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                    callers.setdefault(short(P.types[s[2][1][1]].get('def') or ''), set()).add(me)
            t = blk['t']
            if t[0] == 'call':
                F = P.types[t[5]]
                if F['k'] == 'fndef':
                    uses.append(F)
            for F in uses:
                nc += 1
                k = kind_of(F['path'])
                if k is None and F.get('iname'):
                    k = kind_of(F['iname'])
                if k:
                    eff.setdefault((me, k, F['path']), t[6] if t[0] == 'call' else '')
                if F.get('inst') in P.bodies and P.bodies[F['inst']]['crate'] == P.d['crate']:
                    callers.setdefault(short(P.bodies[F['inst']]['name']), set()).add(me)
                elif F.get('crate') == P.d['crate']:
                    callers.setdefault(short(F.get('iname') or F['path']), set()).add(me)
                    callers.setdefault(short(F['path']), set()).add(me)
    return eff, callers, nb, nc


# functions whose documented purpose is the effect: (crate, last path segment) -> classes
ALLOWED = {('sm_ast', 'parse_file'): {'io'},
           ('sm_playground', 'result'): {'state'}, ('sm_playground', 'result_tex'): {'state'}}


def allowed(P, callers, fn, cls, seen=()):
    a = ALLOWED.get((P.d['crate'], fn.split('::')[-1]))
    if a and cls in a:
        return True
    cs = {c for c in callers.get(fn, set()) - {fn} if not c.endswith('LazyStatic>::initialize')}
    if not cs or fn in seen:
        return False
    return all(allowed(P, callers, c, cls, seen + (fn,)) for c in cs)


def a12(progs, rep):
    can = progs['canary']
    if not can.d['unsafe']:
        rep.bad('canary', 'the unsafe-code rule does not report the canary: it would pass vacuously')
    for k, P in progs.items():
        if k == 'canary':
            continue
        n = sum(1 for _ in bodies(P))
        rep.good('%s: no unsafe block, function, impl or linkage attribute in %d bodies' % (P.d['crate'], n), not P.d['unsafe'])
        for where, what in P.d['unsafe']:
            rep.bad('%s:%s' % (P.d['crate'], where.split(':')[0]), '%s: %s' % (where, what))
        rep.info.setdefault('units', {})[P.d['crate']] = n
        if n < FLOOR[k]:
            rep.bad('floor:' + k, '%s: only %d bodies seen, at least %d expected' % (P.d['crate'], n, FLOOR[k]))


FLOOR = {'alg': 15, 'parser': 5, 'ast': 60, 'play': 2}


def a13(progs, rep):
    can = progs['canary']
    eff, _, _, _ = effects(can)
    got = {(f.split('::')[-1], c) for f, c, _ in eff}
    need = {('prints', 'io'), ('reads_state', 'state'), ('reads_clock', 'env'), ('reads_env', 'env')}
    if not need <= got or any(f == 'prints_then_diverges' for f, _ in got):
        rep.bad('canary', 'the effect rules misjudge the canary: %s' % sorted(got))
    for k, P in progs.items():
        if k == 'canary':
            continue
        eff, callers, nb, nc = effects(P)
        rep.info.setdefault('call_sites', {})[P.d['crate']] = nc
        rep.info.setdefault('units', {})[P.d['crate']] = nb
        if nb < FLOOR[k]:
            rep.bad('floor:' + k, '%s: only %d bodies seen' % (P.d['crate'], nb))
        bad = 0
        for (fn, cls, what), span in sorted(eff.items()):
            if allowed(P, callers, fn, cls):
                rep.good('%s: %s of %s, its documented purpose' % (fn, {'io': 'I/O', 'state': 'shared state', 'env': 'environment'}[cls], what), True)
                continue
            bad += 1
            rep.bad('%s:%s:%s' % (fn, cls, what), '%s: %s uses %s (%s) on a path that returns' % (
                span, fn, what, {'io': 'I/O', 'state': 'shared mutable state', 'env': 'clock, environment, threads or randomness'}[cls]))
        rep.good('%s: no hidden input or effect in %d bodies, %d resolved uses' % (P.d['crate'], nb, nc), not bad)
