"""Transfer functions of flow.py for std, itertools, num, pest and the formatting
machinery, keyed by the last two segments of the callee's type-checked path.
What has no entry here is either a pure function of a known library (its result
is an uninterpreted application) or is reported as not analysable."""
import re
import text as T
from flow import (Giveup, Out, RET, PANIC, BACK, EXIT, UNIT, TRUE, FALSE, S, vref, litof, mkstr, subst, sub_parts, base_src, root_src, contains)

NUMF = frozenset(('zero', 'one'))
PURE_CRATES = {'num', 'num_traits', 'num_bigint', 'num_integer', 'bigdecimal', 'sm_algorithm', 'wolfram_wxf', 'text_utils', 'sm_parser', 'pest', 'wasm_bindgen'}
TABLE = {}
_keys = {}


def m(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def strip_generics(p):
    out, depth, i = [], 0, 0
    while i < len(p):
        c = p[i]
        if c == '<':
            j, d = i, 0
            while True:
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            inner = p[i + 1:j]
            if inner.startswith('impl '):
                x = inner[5:]
                if ' for ' in x:
                    x = x.split(' for ')[0]
                x = strip_generics(x) if '<' in x else x
                out.append(x.split('::')[-1] if not x.startswith('[') else '[T]')
            else:
                if out and out[-1] == ':' and len(out) > 1 and out[-2] == ':':
                    out.pop()
                    out.pop()
            i = j + 1
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def key(p):
    k = _keys.get(p)
    if k is None:
        q = strip_generics(p)
        seg = [x for x in q.split('::') if x]
        k = '::'.join(seg[-2:])
        k = re.sub(r'^(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)::', 'int::', k)
        _keys[p] = k
    return k


def ret(st, v):
    return [Out(RET, st, v)]


def panic(st, msg):
    return [Out(PANIC, st, msg)]


def some(I, t, v):
    return ('adt', t, I.variant(t, 'Some'), (v,))


def none(I, t):
    return ('adt', t, I.variant(t, 'None'), ())


def ok(I, t, v):
    return ('adt', t, I.variant(t, 'Ok'), (v,))


def err(I, t, v):
    return ('adt', t, I.variant(t, 'Err'), (v,))


def optional(I, rty, pairs):
    """outcomes of an Option from [(state, value or None)]"""
    return [Out(RET, s, none(I, rty) if v is None else some(I, rty, v)) for s, v in pairs]


def boolean(prs):
    return [Out(RET, s, ('i', int(r))) for s, r in prs]


def local(I, inst):
    return inst in I.P.bodies and I.P.bodies[inst]['crate'].startswith('sm_')


class Call:
    __slots__ = ('I', 'F', 'a', 'rty', 'st', 'span', 'key')

    def __init__(self, I, F, a, rty, st, span, k):
        self.I, self.F, self.a, self.rty, self.st, self.span, self.key = I, F, a, rty, st, span, k

    def D(self, i):
        return self.I.D(self.st, self.a[i])

    def targ(self, i):
        x = self.F['args'][i] if i < len(self.F['args']) else None
        return x if isinstance(x, int) else None


def model(I, F, args, rty, st, span):
    inst = F.get('inst')
    k = key(F['path'])
    if k in ('Clone::clone', 'ToOwned::to_owned', 'Clone::clone_from') and k == 'Clone::clone':
        if local(I, inst) and not clone_ok(I, inst):
            return None
        return ret(st, I.D(st, args[0]) if args[0][0] in ('vref', 'ref') and I.deref(st, args[0])[0] not in ('vref', 'ref') else strip1(I, st, args[0]))
    if local(I, inst):
        return None
    if inst in I.P.bodies:          # Option / Result methods
        return None
    f = I.extern.get(k) or TABLE.get(k)
    if f is None:
        return None
    return f(Call(I, F, args, rty, st, span, k))


def strip1(I, st, v):
    return I.deref(st, v) if v[0] in ('vref', 'ref') else v


def clone_ok(I, inst):
    """is this Clone implementation the identity on every value?"""
    r = I.clone_ok.get(inst)
    if r is None:
        I.clone_ok[inst] = True         # assumed for the fields of its own type
        b = I.P.bodies[inst]
        t = I.strip(b['body']['locals'][1])
        from flow import St
        x = I.opaque(('clonee', inst), t)
        try:
            outs = I.call_body(inst, [vref(x)], St())
            r = bool(outs)
            for o in outs:
                v = o.val
                if o.kind != RET:
                    r = False
                elif v != x:
                    # the copy may be spelled out along the variant
                    e = [w for s, w in I.expand(o.st, x)] if x[0] == 'o' else [x]
                    if v not in e:
                        r = False
        except Giveup:
            r = False
        I.clone_ok[inst] = r
        if r:
            I.funcs.add(b['name'])
    return r


def external(I, F, args, rty, st, span):
    p = F['path']
    k = key(p)
    if 'panicking::' in p or '_failed' in k or k.endswith('_fail') or 'begin_panic' in p or 'panic_fmt' in p:
        return panic(st, p.split('::')[-1])
    root = p.split('::')[0].lstrip('<')
    cr = F.get('crate') or root
    if root in PURE_CRATES or cr in PURE_CRATES:
        return ret(st, pure(I, st, k, args, rty))
    raise Giveup('no transfer function for %s' % p)


def deepD(I, st, v):
    """value with references resolved (an argument of an uninterpreted function)"""
    v = I.D(st, v)
    if v[0] == 'n' or v[0] == 'b' or v[0] == 'cv':
        return I.nrm(st, v)
    if v[0] == 'str':
        return I.tnorm(st, v)
    if v[0] in ('seq', 'it'):
        return ('seq', v[1])
    return v


def pure(I, st, k, args, rty):
    return I.opaque(('ap', k, tuple(deepD(I, st, a) for a in args)), rty)


def uninterpreted_local(I, inst, b, args, st, rty):
    """recursive call on an unknown value: an uninterpreted function of it"""
    name = b['name']
    if name.endswith('::fmt') and len(args) == 2 and args[1][0] == 'ref':
        st = st.copy()
        write_text(I, st, args[1], (('disp', I.D(st, args[0])),))
        return ret(st, ok(I, rty, UNIT))
    st2 = st.copy()
    for a in args:
        if a[0] == 'ref':
            I.write(st2, a[1], a[2], ('unk', 'changed by a recursive call')) if not unit_ok(I, st, a) else None
    return ret(st2, I.opaque(('ap', '::'.join(strip_generics(name).split('::')[-1:]), tuple(deepD(I, st, a) for a in args[:1])), rty))


def unit_ok(I, st, a):
    return False


# ------------------------------------------------------------ iterating
def resolve(I, st, v):
    """(cell, path) of the iterator / sequence a reference leads to"""
    cell, path = v[1], tuple(v[2])
    while True:
        x = I.getp(st, st.cells.get(cell, ('unk', 'dead')), path)
        if x[0] == 'ref':
            cell, path = x[1], tuple(x[2])
        elif x[0] == 'boxc':
            cell, path = x[1], ()
        else:
            return cell, path, x


def with_facts(I, st, cond):
    s = None
    for k, v in cond:
        old = st.facts.get(k) if s is None else s.facts.get(k)
        if old is None and k[0] == 'S':
            cur = I.cset(st, k[1])
            v = v & cur
            if not v:
                return None
        elif old is not None:
            if old == v:
                continue
            if k[0] == 'S':
                v = v & old
                if not v:
                    return None
            elif k[0] == 'iv':
                lo = old[0] if v[0] is None else v[0] if old[0] is None else max(old[0], v[0])
                hi = old[1] if v[1] is None else v[1] if old[1] is None else min(old[1], v[1])
                if lo is not None and hi is not None and lo > hi:
                    return None
                v = (lo, hi, old[2] | v[2])
            elif k[0] == 'L':
                v = T.inter(old, v)
                if T.empty(v):
                    return None
            else:
                return None
        s = s or st.copy()
        s.facts[k] = v
    return s or st


def length_name(I, src):
    s = src
    while s[0] == 'rev':
        s = s[1]
    return ('len', I.ident(s))


def advance(I, st, cell, path, back=False):
    """[(state, element or None)] for one step of an iterator (or pop of a Vec)"""
    v = I.getp(st, st.cells.get(cell, ('unk', 'dead')), path)
    if v[0] not in ('it', 'seq'):
        raise Giveup('iteration over %r' % (v,))
    ps = list(I.parts(st, v))
    if not ps:
        return [(st, None)]
    i = -1 if back else 0
    p = ps[i]
    rest = ps[:-1] if back else ps[1:]
    if p[0] == 'e':
        s = st.copy()
        I.write(s, cell, path, (v[0], tuple(rest)))
        return [(s, p[1])]
    src = p[1] if not back else (p[1][1] if p[1][0] == 'rev' else ('rev', p[1]))
    out = []
    b = base_src(src)
    el = ('el', b)
    if cell in st.loop:
        if any(base_src(x) == b for x in st.pops):
            raise Giveup('two elements of %r taken in one iteration' % (src,))
        for c, q in p[2]:
            if not q:
                continue
            s = with_facts(I, st, c)
            if s is None:
                continue
            if len(q) != 1 or q[0][0] != 'e':
                raise Giveup('several elements per element of the source')
            s = s.copy()
            s.pops = s.pops + (src,)
            out.append((s, q[0][1]))
    else:
        if not I.one_to_one(p):
            raise Giveup('first element of a filtered sequence')
        n = ('n', 0, length_name(I, src), 'len')
        s0 = I.narrow(st, n, 1, None)
        if s0 is not None:
            nm = I.el_name(b, -1 if src[0] == 'rev' else 0)
            np = I.slice_part(p, 0, 1) if back else I.slice_part(p, 1, 0)
            for c, q in p[2]:
                s = with_facts(I, s0, subst(c, {el: nm}))
                if s is None:
                    continue
                s = s.copy()
                I.write(s, cell, path, (v[0], tuple(rest[:] + [np]) if back else tuple([np] + rest)))
                out.append((s, subst(q[0][1], {el: nm})))
        if I.src_ne(src) or s0 is not None and I.narrow(st, n, None, 0) is None:
            return out
    s = st.copy()
    if cell not in st.loop:
        s = I.narrow(st, ('n', 0, length_name(I, src), 'len'), None, 0)
        if s is None:
            return out
        s = s.copy()
    I.write(s, cell, path, (v[0], tuple(rest)))
    return out + advance(I, s, cell, path, back)


def drive(I, st, parts, body, label='adaptor'):
    """run `body(state, element)` for every element; its outcomes are RET (go on),
    EXIT with a value (stop) or PANIC.  Yields outcomes RET (exhausted), EXIT, PANIC"""
    parts = I.parts(st, ('it', tuple(parts)))
    if sum(p[0] != 'e' for p in parts) > 1:
        # one source after the other
        live, res = [st], []
        for p in parts:
            nxt = []
            for s in live:
                for o in drive(I, s, (p,), body, label):
                    if o.kind == RET:
                        nxt.append(o.st)
                    else:
                        res.append(o)
            live = nxt
        return res + [Out(RET, s, None) for s in live]
    st = st.copy()
    h = I.heap(st, ('it', tuple(parts)))

    def step(s):
        res = []
        for s2, v in advance(I, s, h, ()):
            if v is None:
                res.append(Out(EXIT, s2, ('done',)))
                continue
            for o in body(s2, v):
                if o.kind == RET:
                    res.append(Out(BACK, o.st, 0))
                elif o.kind == EXIT:
                    res.append(Out(EXIT, o.st, ('stop', o.val)))
                else:
                    res.append(o)
        return res
    out = []
    if all(p[0] == 'e' for p in I.parts(st, ('it', tuple(parts)))):
        work = [st]
        while work:
            s = work.pop()
            for o in step(s):
                if o.kind == BACK:
                    work.append(o.st)
                else:
                    out.append(o)
    else:
        out = I.run_loop(st, step, label)
    res = []
    for o in out:
        if o.kind == EXIT:
            o.st.cells.pop(h, None)
            if o.val[0] == 'done':
                res.append(Out(RET, o.st, None))
            else:
                res.append(Out(EXIT, o.st, o.val[1]))
        else:
            res.append(o)
    return res


def gather(I, st, parts, f, init=('seq', ())):
    """[(state, 'seq' value) | Out(PANIC)]: the parts produced by f(state, element) -> [(Out, [parts])]"""
    st = st.copy()
    r = I.heap(st, init)

    def body(s, v):
        res = []
        for o, ps in f(s, v):
            if o.kind == RET:
                cur = o.st.cells[r]
                o.st = o.st.copy()
                o.st.cells[r] = (cur[0], cur[1] + tuple(ps)) if cur[0] != 'str' else mkstr(cur[1] + tuple(ps))
            res.append(o)
        return res
    out = []
    for o in drive(I, st, parts, body):
        if o.kind == RET:
            o.val = o.st.cells.pop(r)
        elif o.kind == EXIT:
            o.st.cells.pop(r, None)
        out.append(o)
    return out


def closure(I, st, f, args, span, rty=None):
    return I.call_value(f, args, st, span, rty)


def iter_parts(I, st, v, t=None):
    """parts an IntoIterator value produces"""
    k = v[0]
    if k == 'it':
        return v[1]
    if k == 'seq':
        return v[1]
    if k == 'vref':
        x = v[1]
        if x[0] in ('vref', 'box'):
            return iter_parts(I, st, x)
        if x[0] == 'seq':
            return wrap(x[1])
        if x[0] == 'map':
            return map_items(I, st, x, True)
        if x[0] == 'adt' and I.last(x[1]) == 'Option':
            return tuple(('e', vref(f)) for f in x[3])
        raise Giveup('iteration over %r' % (v,))
    if k == 'map':
        return map_items(I, st, v, False)
    if k == 'ref':
        x = I.deref(st, v)
        if x[0] == 'it':
            raise Giveup('by-reference iterator adaptor')
        if x[0] == 'ref':
            return iter_parts(I, st, x)
        if x[0] == 'seq' and all(p[0] == 'e' for p in I.parts(st, x)):
            return tuple(('e', ('ref', v[1], tuple(v[2]) + (('ix', ('i', i)),))) for i in range(len(I.parts(st, x))))
        raise Giveup('mutable iteration')
    if k == 'adt' and I.last(v[1]) == 'Option':
        return tuple(('e', f) for f in v[3])
    if k == 'adt' and I.last(v[1]) in ('Range', 'RangeInclusive'):
        return range_parts(I, st, v)
    if k == 'box':
        return iter_parts(I, st, v[1])
    raise Giveup('iteration over %r' % (v,))


def range_parts(I, st, v):
    lo, hi = I.nrm(st, v[3][0]), I.nrm(st, v[3][1])
    incl = 1 if I.last(v[1]) == 'RangeInclusive' else 0
    if lo[0] == 'i' and hi[0] == 'i':
        if hi[1] - lo[1] > 64:
            raise Giveup('long range')
        return tuple(('e', ('i', x)) for x in range(lo[1], hi[1] + incl))
    if lo[0] == 'i' and hi[0] == 'n' and isinstance(hi[2], tuple) and hi[2][0] == 'len' and hi[2][1][0] == 'm':
        q = hi[2][1]
        extra = hi[1] + incl            # hi = len(q) + extra
        if lo[1] <= extra and lo[1] >= 0:
            src = q[1]
            head = []
            # lo .. extra+len: `extra - lo` plain indices cannot be told apart from the rest by position: only lo == extra is exact
            if lo[1] != extra:
                raise Giveup('range over part of a sequence')
            return tuple(head) + (('m', src, ((frozenset(), (('e', ('n', lo[1], ('ix', ('el', src)), 'len')),)),)),)
    raise Giveup('range %r' % (v,))


def wrap(ps):
    return mapparts(ps, vref)


def mapparts(ps, f):
    out = []
    for p in ps:
        if p[0] == 'e':
            out.append(('e', f(p[1])))
        else:
            q = (p[0], p[1], tuple((c, mapparts(b, f)) for c, b in p[2]))
            out.append(q)
    return tuple(out)


def keep_total(I, ps, qs):
    for p, q in zip(ps, qs):
        if p[0] == 'm' and p in I.total:
            I.total = I.total | {q}
    return qs


def number_keys(v):
    """keys that are distinct numbers of one kind"""
    ks = [p[1][1][0] if p[0] == 'e' else ('?',) for p in v[2]]
    return v[1] is None and bool(ks) and all(k[0] == 'adt' and len(k[3]) == 1 and k[3][0][0] == 'i' for k in ks) \
        and len({k[:3] for k in ks}) == 1 and len(set(ks)) == len(ks)


def map_items(I, st, v, refs):
    base, ops = v[1], v[2]
    w = (lambda x: ('tup', (vref(x[1][0]), vref(x[1][1])))) if refs else (lambda x: x)
    if base is None and len(ops) <= 1 and all(p[0] == 'e' for p in ops):
        return mapparts(ops, w)
    if number_keys(v):
        # distinct numbers of one kind: in order
        return mapparts(tuple(sorted(ops, key=lambda p: p[1][1][0][3][0][1])), w)
    if base is not None and not ops:
        s = ('items', base[0], base[1], base[2])
        p = I.ident(s)
        return (p,) if refs else (('m', s, ((frozenset(), (('e', I.el(s) if refs else ('tup', tuple(x[1] for x in I.el(s)[1]))),)),)),)
    raise Giveup('entries of a changed map')


# ------------------------------------------------------------ Option-like small things
@m('hint::must_use', 'convert::identity', 'hint::black_box')
def _id(c):
    return ret(c.st, c.a[0])


@m('mem::drop', 'mem::forget', 'io::_print', 'io::_eprint', 'Vec::reserve', 'Vec::shrink_to_fit', 'String::reserve')
def _unit(c):
    return ret(c.st, UNIT)


@m('mem::replace', 'mem::take', 'mem::swap')
def _replace(c):
    st = c.st.copy()
    I = c.I
    r = c.a[0]
    old = I.deref(st, r)
    if c.key == 'mem::swap':
        o2 = I.deref(st, c.a[1])
        I.write(st, r[1], r[2], o2)
        I.write(st, c.a[1][1], c.a[1][2], old)
        return ret(st, UNIT)
    if c.key == 'mem::take':
        d = default(I, st, c.rty)
        if d is None:
            raise Giveup('default of %s' % I.tname(c.rty))
        I.write(st, r[1], r[2], d)
        return ret(st, old)
    I.write(st, r[1], r[2], c.a[1])
    return ret(st, old)


def default(I, st, t):
    d = I.types[t]
    k = d['k']
    if k == 'int':
        return ('i', 0)
    if k == 'bool':
        return FALSE
    if k == 'tuple':
        fs = [default(I, st, x) for x in d['el']]
        return None if None in fs else ('tup', tuple(fs))
    if k == 'ref':
        return vref(S('')) if I.types[d['el']]['k'] == 'str' else None
    if k == 'adt':
        n = I.last(t)
        if n in ('Vec', 'VecDeque'):
            return ('seq', ())
        if n == 'String':
            return S('')
        if n in ('BTreeMap', 'HashMap', 'BTreeSet', 'HashSet'):
            return ('map', None, ())
        if n == 'Option':
            return none(I, t)
        if n in ('BigInt', 'BigUint'):
            return ('i', 0)
    return None


@m('Default::default')
def _default(c):
    v = default(c.I, c.st, c.rty)
    return None if v is None else ret(c.st, v)


@m('any::type_name')
def _tn(c):
    return ret(c.st, vref(('str', (('tn', c.F.get('iname')), '::f'))))


@m('Pair::as_rule')
def _as_rule(c):
    p = c.D(0)
    if p[0] != 'pair':
        raise Giveup('as_rule of %r' % (p,))
    return ret(c.st, ('adt', c.rty, c.I.variant(c.rty, p[2]), ()))


@m('Pair::as_str', 'Span::as_str', 'Pairs::as_str')
def _as_str(c):
    p = c.D(0)
    if p[0] == 'o' and p[1][0] == 'span':
        return ret(c.st, vref(('str', (('t', ('text', p[1][1], p[1][2])),))))
    if p[0] != 'pair':
        raise Giveup('as_str of %r' % (p,))
    return ret(c.st, vref(('str', (('t', ('text', p[1], p[2])),))))


@m('Pair::as_span', 'Pair::into_span')
def _as_span(c):
    p = c.D(0)
    if p[0] != 'pair':
        raise Giveup('span of %r' % (p,))
    return ret(c.st, ('o', ('span', p[1], p[2]), c.rty))


@m('Span::start_pos', 'Span::end_pos', 'Position::line_col', 'Span::start', 'Span::end', 'Position::pos', 'Error::to_string')
def _posn(c):
    return ret(c.st, pure(c.I, c.st, c.key, c.a, c.rty))


@m('Span::split')
def _split_span(c):
    return ret(c.st, ('tup', (pure(c.I, c.st, 'Span::start_pos', c.a, c.I.types[c.rty]['el'][0]), pure(c.I, c.st, 'Span::end_pos', c.a, c.I.types[c.rty]['el'][1]))))


@m('Pair::into_inner')
def _into_inner(c):
    p = c.D(0)
    if p[0] != 'pair':
        raise Giveup('children of %r' % (p,))
    return [Out(RET, s, ('it', ps)) for s, ps in inner(c.I, c.st, p)]


def inner(I, st, p):
    """[(state, parts)] of the children of a token"""
    paths = I.kids_of.get(p[2])
    if paths is None:
        raise Giveup('children of rule %s' % p[2])
    k = ('kids', p[1])
    out = []
    for n, path in enumerate(paths):
        if k in st.facts and st.facts[k] != n:
            continue
        s = st
        if len(paths) > 1 and k not in st.facts:
            s = st.copy()
            s.facts[k] = n
        states = [(s, ())]
        for i, it in enumerate(path):
            nxt = []
            for s, ps in states:
                if it[0] == 'e':
                    nm = ('k', p[1], n, i)
                    rs = sorted(it[1])
                    for r in rs:
                        f = s.facts.get(('rule', nm))
                        if f is not None and f != r:
                            continue
                        s2 = s
                        if len(rs) > 1 and f is None:
                            s2 = s.copy()
                            s2.facts[('rule', nm)] = r
                        nxt.append((s2, ps + (('e', ('pair', nm, r)),)))
                else:
                    nxt.append((s, ps + (I.ident(('seg', p[1], (n, i), tuple(it[1]), it[2])),)))
            states = nxt
        out += states
    # the text of the token, restricted to the children it has
    res = []
    for s, ps in out:
        L = I.kid_text(p[2], tuple(('e', x[1][2]) if x[0] == 'e' else ('m', x[1][3]) for x in ps)) if I.kid_text and len(out) > 1 else None
        if L is not None:
            s = I.with_lang(s, ('text', p[1], p[2]), T.inter(I.tlang(s, ('text', p[1], p[2])), L))
            if s is None:
                continue
        res.append((s, ps))
    return res


@m('PrecClimber::climb')
def _climb(c):
    I, st = c.I, c.st
    it = I.D(st, c.a[1])
    if it[0] != 'it':
        raise Giveup('climbing %r' % (it,))
    rules, who = set(), None
    for p in it[1]:
        if p[0] == 'e':
            rules.add(p[1][2])
            who = who or (p[1][1][1] if p[1][1][0] == 'k' else None)
        else:
            s = root_src(p[1])
            if s[0] != 'seg' or p != I.ident(p[1]):
                raise Giveup('climbing a changed sequence of tokens')
            rules |= set(s[3])
            who = who or s[1]
    ops = I.infix_ops & rules
    prim = rules - ops
    lhs, rhs = ('o', ('lhs', who), c.rty), ('o', ('rhs', who), c.rty)
    tab, out = [], []
    base = st
    for r in sorted(rules):
        p = ('pair', ('c', who, r), r)
        args = [p] if r in prim else [lhs, p, rhs]
        for o in closure(I, base.copy(), c.a[2] if r in prim else c.a[3], args, c.span, c.rty):
            if o.kind != RET:
                out.append(o)
                continue
            same = all(o.st.cells.get(x) == y for x, y in base.cells.items())
            if not same:
                raise Giveup('the operator callbacks change captured state')
            cond = frozenset((k, v) for k, v in o.st.facts.items() if base.facts.get(k) != v)
            tab.append((r, cond, o.val))
    return out + ret(st, ('o', ('climb', who, canon_branches(tab), tuple(it[1])), c.rty))


def canon_branches(tab):
    return tuple(sorted(tab, key=repr))


@m('Parser::parse')
def _parse(c):
    I, st = c.I, c.st
    r = c.D(0)
    rule = I.types[r[1]]['variants'][r[2]]['name'] if r[0] == 'adt' else None
    if rule is None:
        raise Giveup('parsing with an unknown rule')
    t = deepD(I, st, c.a[1])
    name = ('root', t)
    out = []
    k = ('parsed', name)
    for v in (True, False):
        if st.facts.get(k, v) != v:
            continue
        s = st.copy()
        s.facts[k] = v
        if v:
            for s2, ps in inner(I, s, ('pair', name, rule)):
                out.append(Out(RET, s2, ok(I, c.rty, ('it', ps))))
        else:
            out.append(Out(RET, s, err(I, c.rty, ('o', ('parse-error', t), I.fields(c.rty, I.variant(c.rty, 'Err'))[0]))))
    return out


# ------------------------------------------------------------ references and boxes
@m('Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'Vec::as_slice', 'String::as_str', 'Vec::as_ref', 'Cow::deref', 'str::as_ref', 'Box::as_ref')
def _deref(c):
    v = c.a[0]
    x = c.I.D(c.st, v)
    if x[0] == 'o' and isinstance(x[1], tuple) and x[1][0] == 'guard':
        return ret(c.st, ('ref', x[1][1], ()))
    if x[0] in ('str', 'seq', 'adt', 'o', 'map', 'n', 'i', 'b', 'tup', 'cv', 'ch'):
        return ret(c.st, vref(x))
    raise Giveup('deref of %r' % (x,))


@m('DerefMut::deref_mut', 'AsMut::as_mut', 'Vec::as_mut_slice', 'BorrowMut::borrow_mut')
def _derefm(c):
    cell, path, x = resolve(c.I, c.st, c.a[0])
    if x[0] == 'o' and isinstance(x[1], tuple) and x[1][0] == 'guard':
        return ret(c.st, ('ref', x[1][1], ()))
    if x[0] == 'box':
        path = tuple(path) + (('*',),)
    return ret(c.st, ('ref', cell, path))


# ------------------------------------------------------------ locks
LOCKS = ('Mutex', 'RwLock', 'RefCell')


def lock_of(I, st, v):
    """cell of the content of a lock"""
    v = I.D(st, v)
    if v[0] != 'o' or I.last(v[2]) not in LOCKS:
        raise Giveup('lock of %r' % (v,))
    cell = ('lock', v[1])
    if cell not in st.cells:
        st = st.copy()
        st.cells[cell] = I.opaque(('content', v[1]), I.types[v[2]]['args'][0])
    return st, cell


def acquire(I, st, cell):
    st = st.copy()
    st.facts[('held', cell)] = True
    return st


@m('Mutex::new', 'RwLock::new', 'RefCell::new')
def _newlock(c):
    return ret(c.st, ('o', ('newlock', c.I.D(c.st, c.a[0])), c.rty))


@m('Mutex::lock', 'RwLock::write', 'RwLock::read')
def _lock(c):
    st, cell = lock_of(c.I, c.st, c.a[0])
    if st.facts.get(('held', cell)):
        return panic(st, 'the lock is taken while it is held: the call never returns')
    vi = c.I.variant(c.rty, 'Ok')
    g = ('o', ('guard', cell), c.I.fields(c.rty, vi)[0])
    return ret(acquire(c.I, st, cell), ('adt', c.rty, vi, (g,)))       # never poisoned: nothing panics under the lock


@m('RefCell::borrow_mut', 'RefCell::borrow')
def _borrow(c):
    st, cell = lock_of(c.I, c.st, c.a[0])
    if st.facts.get(('held', cell)):
        return panic(st, 'borrowed while it is borrowed')
    return ret(acquire(c.I, st, cell), ('o', ('guard', cell), c.rty))


@m('Mutex::try_lock', 'RwLock::try_write', 'RwLock::try_read', 'RefCell::try_borrow_mut', 'RefCell::try_borrow')
def _trylock(c):
    st, cell = lock_of(c.I, c.st, c.a[0])
    out = []
    for vn in ('Ok', 'Err'):
        vi = c.I.variant(c.rty, vn)
        t = c.I.fields(c.rty, vi)[0]
        if vn == 'Err':
            out.append(Out(RET, st.copy(), ('adt', c.rty, vi, (c.I.opaque(('busy', cell), t),))))
        elif not st.facts.get(('held', cell)):
            out.append(Out(RET, acquire(c.I, st, cell), ('adt', c.rty, vi, (('o', ('guard', cell), t),))))
    return out


def release(I, st, v):
    gs = [k[1] for k, b in st.facts.items() if k[0] == 'held' and b and contains(v, ('guard', k[1]))]
    if gs:
        st = st.copy()
        for g in gs:
            st.facts[('held', g)] = False
    return st


@m('mem::drop')
def _memdrop(c):
    return ret(release(c.I, c.st, c.a[0]), UNIT)


@m('Box::new', 'Rc::new', 'Arc::new')
def _box(c):
    return ret(c.st, ('box', c.a[0]))


@m('Box::new_uninit')
def _newu(c):
    st = c.st.copy()
    return ret(st, ('boxc', c.I.heap(st, ('unk', 'box-uninit'))))


@m('boxed::box_assume_init_into_vec_unsafe')
def _assume(c):
    v = c.I.D(c.st, c.a[0])
    if v[0] != 'seq':
        raise Giveup('vec! of %r' % (v,))
    return ret(c.st, v)


@m('slice::into_vec', '[T]::into_vec', '[T]::to_vec', 'Vec::to_vec', 'ToOwned::to_owned', 'Vec::into_boxed_slice', 'String::into_boxed_str', 'str::to_string', 'str::to_owned',
   'String::into_string', 'str::into_string', 'Cow::into_owned', 'Clone::clone')
def _tovec(c):
    return ret(c.st, c.I.D(c.st, c.a[0]))


@m('From::from', 'Into::into')
def _from(c):
    I, st = c.I, c.st
    v = c.a[0]
    d = I.types[c.rty]
    n = I.last(c.rty)
    src = c.targ(1) if c.key == 'From::from' else c.targ(0)
    if src == c.rty:
        return ret(st, v)
    f = find_from(I, src, c.rty)
    if f is not None:
        return I.call(f, [v], st, c.span, c.rty)
    x = I.D(st, v)
    if n == 'String' or n == 'Box' and I.types[d['args'][0]]['k'] == 'str':
        if x[0] == 'str':
            return ret(st, x)
        if x[0] in ('ch', 'cv'):
            return ret(st, mkstr((x,)))
    if n in ('BigInt', 'BigUint') or d['k'] == 'int':
        if x[0] == 'i':
            return ret(st, x)
        if x[0] == 'n':
            return ret(st, x)
        if x[0] == 'b':
            return [Out(RET, s, ('i', int(r))) for s, r in I.truth(st, x)]
        if x[0] == 'ch':
            return ret(st, ('i', ord(x[1])))
    if n == 'Vec' and x[0] in ('seq',):
        return ret(st, x)
    if n == 'Vec' and x[0] == 'str':
        return ret(st, ('seq', (('e', ('bytes-of', x)),)))
    if n == 'Box':
        return ret(st, ('box', v) if x[0] not in ('str', 'seq') else x)
    if n == 'Option':
        return ret(st, some(I, c.rty, v))
    if n == 'BigDecimal' or n == 'WolframValue':
        return ret(st, pure(I, st, 'From::from:' + n, c.a, c.rty))
    raise Giveup('conversion of %r into %s' % (x, I.tname(c.rty)))


def find_from(I, src, dst):
    if src is None:
        return None
    for i, b in I.P.bodies.items():
        if b['crate'].startswith('sm_') and b['name'].endswith('::from') and 'From<' in b['name'] and b['body']['argc'] == 1:
            ls = b['body']['locals']
            if ls[0] == dst and ls[1] == src:
                return i
    return None


# ------------------------------------------------------------ Vec and slices
@m('Vec::new', 'Vec::with_capacity')
def _vnew(c):
    return ret(c.st, ('seq', ()))


def upd(c, f):
    """write back the sequence behind args[0]"""
    st = c.st.copy()
    cell, path, x = resolve(c.I, st, c.a[0])
    if x[0] == 'box':
        x, path = x[1], tuple(path) + (('*',),)
    c.I.write(st, cell, path, f(x))
    return st


@m('Vec::push', 'VecDeque::push_back')
def _push(c):
    return ret(upd(c, lambda x: ('seq', x[1] + (('e', c.a[1]),))), UNIT)


@m('VecDeque::push_front')
def _pushf(c):
    return ret(upd(c, lambda x: ('seq', (('e', c.a[1]),) + x[1])), UNIT)


@m('Vec::insert')
def _vins(c):
    I = c.I
    cell, path, x = resolve(I, c.st, c.a[0])
    i = I.nrm(c.st, c.a[1])
    ps = I.parts(c.st, x)
    if i[0] == 'i' and all(p[0] == 'e' for p in ps[:i[1]]) and (i[1] <= len(ps)):
        return ret(upd(c, lambda x: ('seq', ps[:i[1]] + (('e', c.a[2]),) + ps[i[1]:])), UNIT)
    raise Giveup('insert at %r' % (i,))


@m('Vec::splice')
def _splice(c):
    I = c.I
    cell, path, x = resolve(I, c.st, c.a[0])
    r = I.D(c.st, c.a[1])
    ps = I.parts(c.st, x)
    lo, hi = (I.nrm(c.st, y) for y in r[3]) if r[0] == 'adt' and I.last(r[1]) == 'Range' else (None, None)
    if lo is None or lo[0] != 'i' or hi[0] != 'i' or lo[1] > hi[1] or hi[1] > len(ps) or any(p[0] != 'e' for p in ps[:hi[1]]):
        raise Giveup('splice at %r' % (r,))
    new = tuple(iter_parts(I, c.st, c.a[2]))
    st = upd(c, lambda x: ('seq', ps[:lo[1]] + new + ps[hi[1]:]))
    return ret(st, ('it', ps[lo[1]:hi[1]]))


@m('Vec::extend', 'Extend::extend', 'Vec::extend_from_slice', 'Vec::append', 'VecDeque::extend')
def _extend(c):
    I, st = c.I, c.st
    cell, path, x = resolve(I, st, c.a[0])
    if x[0] == 'str':
        return [fin_str(I, o, cell, path) for o in text_of_parts(I, st, iter_parts(I, st, c.a[1]), x)]
    if x[0] == 'map':
        ps = iter_parts(I, st, c.a[1])
        return ret(upd(c, lambda x: ('map', x[1], x[2] + tuple(ps))), UNIT)
    if c.key == 'Vec::append':
        y = I.D(st, c.a[1])
        st2 = upd(c, lambda x: ('seq', x[1] + y[1]))
        I.write(st2, c.a[1][1], c.a[1][2], ('seq', ()))
        return ret(st2, UNIT)
    if c.key == 'Vec::extend_from_slice':
        ps = I.D(st, c.a[1])[1]
    else:
        ps = iter_parts(I, st, c.a[1])
        et = I.types[c.targ(1)] if c.key == 'Extend::extend' and c.targ(1) is not None else None
        if et is not None and et['k'] == 'ref':
            ps = mapparts(ps, lambda v: I.D(st, v))
    return ret(upd(c, lambda x: ('seq', x[1] + tuple(ps))), UNIT)


@m('Vec::pop', 'VecDeque::pop_back')
def _pop(c):
    cell, path, x = resolve(c.I, c.st, c.a[0])
    return optional(c.I, c.rty, advance(c.I, c.st, cell, path, back=True))


@m('VecDeque::pop_front')
def _popf(c):
    cell, path, x = resolve(c.I, c.st, c.a[0])
    return optional(c.I, c.rty, advance(c.I, c.st, cell, path))


@m('Vec::remove', 'Vec::swap_remove')
def _remove(c):
    I = c.I
    cell, path, x = resolve(I, c.st, c.a[0])
    i = I.nrm(c.st, c.a[1])
    out = []
    for s, b in I.cmp(c.st, 'Lt', i, I.length(c.st, x)):
        if not b:
            out += panic(s, 'removal index out of bounds')
        elif i == ('i', 0) and c.key == 'Vec::remove':
            s2 = s.copy()
            s2.loop = frozenset()
            for s3, v in advance(I, s2, cell, path):
                s3.loop = s.loop
                if v is not None:
                    out.append(Out(RET, s3, v))
        else:
            ps = I.parts(s, x)
            if i[0] == 'i' and all(p[0] == 'e' for p in ps):
                s2 = s.copy()
                q = list(ps)
                v = q.pop(i[1])[1]
                if c.key == 'Vec::swap_remove' and i[1] < len(q):
                    q.insert(i[1], q.pop())
                I.write(s2, cell, path, ('seq', tuple(q)))
                out.append(Out(RET, s2, v))
            else:
                raise Giveup('removal at %r' % (i,))
    return out


@m('Vec::len', '[T]::len', 'VecDeque::len', 'ExactSizeIterator::len', 'Vec::is_empty', '[T]::is_empty', 'VecDeque::is_empty')
def _len(c):
    v = c.D(0)
    if v[0] not in ('seq', 'it'):
        raise Giveup('length of %r' % (v,))
    n = c.I.length(c.st, v)
    if c.key.endswith('is_empty'):
        return boolean(c.I.cmp(c.st, 'Eq', n, ('i', 0)))
    return ret(c.st, n)


@m('[T]::iter', 'Vec::iter', 'VecDeque::iter')
def _iter(c):
    v = c.D(0)
    if v[0] != 'seq':
        raise Giveup('iteration over %r' % (v,))
    return ret(c.st, ('it', keep_total(c.I, v[1], wrap(v[1]))))


@m('[T]::iter_mut', 'Vec::iter_mut')
def _iterm(c):
    cell, path, x = resolve(c.I, c.st, c.a[0])
    return ret(c.st, ('it', iter_parts(c.I, c.st, ('ref', cell, path))))


@m('IntoIterator::into_iter')
def _into_iter(c):
    return ret(c.st, ('it', iter_parts(c.I, c.st, c.a[0])))


@m('Vec::drain')
def _drain(c):
    I = c.I
    cell, path, x = resolve(I, c.st, c.a[0])
    out = []
    for o in slice_range(I, c.st, x, c.a[1]):
        if o.kind != RET:
            out.append(o)
            continue
        sub, before, after = o.val
        st = o.st.copy()
        I.write(st, cell, path, ('seq', before + after))
        out.append(Out(RET, st, ('it', sub)))
    return out


@m('[T]::first', '[T]::last', 'Vec::first', 'Vec::last')
def _first(c):
    I = c.I
    v = c.D(0)
    out = []
    for s, e in I.cmp(c.st, 'Eq', I.length(c.st, v), ('i', 0)):
        if e:
            out.append(Out(RET, s, none(I, c.rty)))
        else:
            for s2, x in element(I, s, v, ('i', 0), c.key.endswith('last')):
                out.append(Out(RET, s2, some(I, c.rty, vref(x))))
    return out


@m('[T]::first_mut', '[T]::last_mut', 'Vec::first_mut', 'Vec::last_mut')
def _firstm(c):
    I = c.I
    cell, path, v = resolve(I, c.st, c.a[0])
    out = []
    for s, e in I.cmp(c.st, 'Eq', I.length(c.st, v), ('i', 0)):
        if e:
            out.append(Out(RET, s, none(I, c.rty)))
        else:
            ps = I.parts(s, v)
            ix = ('ix', ('i', 0)) if c.key.endswith('first_mut') else ('ixe', 1)
            out.append(Out(RET, s, some(I, c.rty, ('ref', cell, tuple(path) + (ix,)))))
    return out


def element(I, st, v, i, fromend=False):
    """[(state, element i)]: the index is known to be in bounds"""
    i = I.nrm(st, i)
    ps = I.parts(st, v)
    if i[0] == 'n' and isinstance(i[2], tuple) and i[2][0] == 'ix':
        src = i[2][1][1]
        k = i[1]
        j = 0
        while j < len(ps) and ps[j][0] == 'e' and k > 0:
            j += 1
            k -= 1
        if k == 0 and j < len(ps) and ps[j][0] == 'm' and ps[j][1] == src and I.one_to_one(ps[j]):
            out = []
            for c, q in ps[j][2]:
                s = with_facts(I, st, c)
                if s is not None:
                    out.append((s, q[0][1]))
            return out
    r = I.at(st, v, i, fromend)
    if r is not None:
        return [(st, r)]
    # a sequence of branching elements: split on the branch
    if i[0] == 'i':
        if fromend:
            qs, k = ps[::-1], i[1]
        else:
            qs, k = ps, i[1]
        n = 0
        while n < len(qs) and qs[n][0] == 'e' and n < k:
            n += 1
        if n < len(qs) and qs[n][0] == 'e' and n == k:
            return [(st, qs[n][1])]
        if n < len(qs) and qs[n][0] == 'm' and I.one_to_one(qs[n]):
            p = qs[n]
            s0, rev = p[1], fromend
            while s0[0] == 'rev':
                s0, rev = s0[1], not rev
            d = k - n
            lo = I.min_len(st, p)
            if lo > d or n == len(qs) - 1:
                nm = I.el_name(s0, -d - 1 if rev else d)
                out = []
                for c, q in p[2]:
                    s = with_facts(I, st, subst(c, {('el', s0): nm}))
                    if s is not None:
                        out.append((s, subst(q[0][1], {('el', s0): nm})))
                return out
    raise Giveup('element %r of %r' % (i, v))


def in_bounds(I, st, v, i):
    if i[0] == 'n' and isinstance(i[2], tuple) and i[2][0] == 'ix':
        src = i[2][1][1]
        ps = I.parts(st, v)
        k = i[1]
        j = 0
        while j < len(ps) and ps[j][0] == 'e' and k > 0:
            j += 1
            k -= 1
        if k == 0 and j < len(ps) and ps[j][0] == 'm' and ps[j][1] == src and I.one_to_one(ps[j]):
            return [(st, True)]
        if any(p[0] == 'm' and p[1] == src and I.one_to_one(p) for p in ps) and len(ps) > k:
            return [(st, True)]
    return I.cmp(st, 'Lt', i, I.length(st, v))


@m('[T]::get', 'Vec::get', '[T]::get_mut', 'VecDeque::get')
def _get(c):
    I = c.I
    i = I.nrm(c.st, c.a[1])
    if i[0] not in ('i', 'n'):
        v = c.D(0)
        out = []
        for o in slice_range(I, c.st, v, c.a[1]):
            if o.kind == PANIC:
                out.append(Out(RET, o.st, none(I, c.rty)))
            else:
                out.append(Out(RET, o.st, some(I, c.rty, vref(('seq', o.val[0])))))
        return out
    if c.key == '[T]::get_mut':
        cell, path, v = resolve(I, c.st, c.a[0])
    else:
        v = c.D(0)
    out = []
    for s, b in in_bounds(I, c.st, v, i):
        if not b:
            out.append(Out(RET, s, none(I, c.rty)))
        elif c.key == '[T]::get_mut':
            out.append(Out(RET, s, some(I, c.rty, ('ref', cell, tuple(path) + (('ix', i),)))))
        else:
            for s2, x in element(I, s, v, i):
                out.append(Out(RET, s2, some(I, c.rty, vref(x))))
    return out


@m('Index::index', 'IndexMut::index_mut')
def _index(c):
    I, st = c.I, c.st
    v = c.D(0)
    i = I.nrm(st, c.a[1])
    if v[0] == 'str':
        return str_range(I, st, v, i)
    if v[0] == 'map':
        return [Out(RET, s, vref(x)) if x is not None else Out(PANIC, s, 'missing key') for s, x in lookup(I, st, v, i)]
    if v[0] != 'seq':
        raise Giveup('index of %r' % (v,))
    if i[0] in ('i', 'n'):
        out = []
        for s, b in in_bounds(I, st, v, i):
            if not b:
                out += panic(s, 'index out of bounds')
            elif c.key == 'IndexMut::index_mut':
                cell, path, x = resolve(I, s, c.a[0])
                if x[0] == 'box':
                    path = tuple(path) + (('*',),)
                out.append(Out(RET, s, ('ref', cell, tuple(path) + (('ix', i),))))
            else:
                for s2, x in element(I, s, v, i):
                    out.append(Out(RET, s2, vref(x)))
        return out
    if c.key == 'IndexMut::index_mut':
        raise Giveup('mutable subslice')
    return [Out(RET, o.st, vref(('seq', o.val[0]))) if o.kind == RET else o for o in slice_range(I, st, v, i)]


def range_bounds(I, st, r):
    """(start, end, inclusive) with None for open ends"""
    n = I.last(r[1]) if r[0] == 'adt' else ''
    if n == 'Range':
        return r[3][0], r[3][1], 0
    if n == 'RangeFrom':
        return r[3][0], None, 0
    if n == 'RangeTo':
        return ('i', 0), r[3][0], 0
    if n == 'RangeFull':
        return ('i', 0), None, 0
    if n == 'RangeToInclusive':
        return ('i', 0), r[3][0], 1
    if n == 'RangeInclusive':
        return r[3][0], r[3][1], 1
    raise Giveup('range %r' % (r,))


def slice_range(I, st, v, r):
    """outcomes with (parts, parts before, parts after)"""
    a, b, inc = range_bounds(I, st, r)
    a = I.nrm(st, a)
    L = I.length(st, v)
    out = []
    if b is None:
        b = L
    else:
        b = I.nrm(st, b)
        if inc:
            b = ('i', b[1] + 1) if b[0] == 'i' else ('n', b[1] + 1, b[2], b[3])
    for s, x in I.cmp(st, 'Gt', b, L):
        if x:
            out += panic(s, 'range end out of bounds')
            continue
        for s2, y in I.cmp(s, 'Gt', a, b):
            if y:
                out += panic(s2, 'range start after end')
                continue
            L2 = I.length(s2, v)
            if a[0] != 'i':
                raise Giveup('subsequence from %r' % (a,))
            if b == L or b == L2:
                back = 0
            elif b[0] == L2[0] and (b[0] == 'i' or b[2] == L2[2]):
                back = L2[1] - b[1]
            elif b[0] == 'i':
                back = None
            else:
                raise Giveup('subsequence to %r' % (b,))
            if back is None:
                sub = I.subseq(s2, v, a[1], end=b[1])
                out.append(Out(RET, s2, (sub[1], I.subseq(s2, v, 0, end=a[1])[1], I.subseq(s2, v, b[1])[1] if True else ())))
            else:
                sub = I.subseq(s2, v, a[1], back)
                out.append(Out(RET, s2, (sub[1], I.subseq(s2, v, 0, end=a[1])[1] if a[1] else (), tail(I, s2, v, back))))
    return out


def tail(I, st, v, n):
    ps = list(I.parts(st, v))
    out = []
    while n and ps and ps[-1][0] == 'e':
        out.insert(0, ps.pop())
        n -= 1
    return tuple(out)


@m('[T]::split_first', '[T]::split_last')
def _splitf(c):
    I = c.I
    v = c.D(0)
    out = []
    for s, e in I.cmp(c.st, 'Eq', I.length(c.st, v), ('i', 0)):
        if e:
            out.append(Out(RET, s, none(I, c.rty)))
        else:
            last = c.key.endswith('last')
            for s2, x in element(I, s, v, ('i', 0), last):
                out.append(Out(RET, s2, some(I, c.rty, ('tup', (vref(x), vref(I.subseq(s2, v, 0 if last else 1, 1 if last else 0)))))))
    return out


@m('[T]::reverse')
def _reverse(c):
    return ret(upd(c, lambda x: ('seq', c.I.reverse(c.I.parts(c.st, x)))), UNIT)


@m('Vec::clear', 'String::clear', 'BTreeMap::clear')
def _clear(c):
    return ret(upd(c, lambda x: ('seq', ()) if x[0] == 'seq' else S('') if x[0] == 'str' else ('map', None, ())), UNIT)


@m('Vec::truncate')
def _trunc(c):
    I = c.I
    n = I.nrm(c.st, c.a[1])
    if n[0] != 'i':
        raise Giveup('truncate to %r' % (n,))
    cell, path, x = resolve(I, c.st, c.a[0])
    out = []
    for s, b in I.cmp(c.st, 'Le', I.length(c.st, x), n):
        if b:
            out.append(Out(RET, s, UNIT))
        else:
            s2 = s.copy()
            I.write(s2, cell, path, I.subseq(s, x, 0, end=n[1]))
            out.append(Out(RET, s2, UNIT))
    return out


@m('[T]::concat', 'Itertools::concat')
def _concat(c):
    I, st = c.I, c.st
    if I.last(c.rty) == 'String':
        return [fin(o) for o in text_of_parts(I, st, c.D(0)[1], S(''))]
    ps = []
    for p in c.D(0)[1]:
        if p[0] != 'e':
            raise Giveup('concatenation of unboundedly many sequences')
        ps += I.D(st, p[1])[1]
    return ret(st, ('seq', tuple(ps)))


@m('[T]::join', 'Itertools::join', 'Join::join')
def _join(c):
    I, st = c.I, c.st
    if c.key == 'Itertools::join':
        cell, path, x = resolve(I, st, c.a[0]) if c.a[0][0] == 'ref' else (None, None, c.a[0])
        ps = iter_parts(I, st, x)
    else:
        ps = c.D(0)[1]
    sep = c.I.D(st, c.a[1])
    if sep[0] in ('ch', 'cv'):
        sep = mkstr((sep,))
    outs = []
    for o in gather(I, st, ps, lambda s, v: [(Out(RET, s2, None), [('e', t)]) for s2, t in display(I, s, v)]):
        if o.kind != RET:
            outs.append(o)
            continue
        outs.append(Out(RET, o.st, join_text(I, o.st, o.val[1], sep)))
    return outs


def join_text(I, st, ps, sep):
    ps = I.parts(st, ('seq', tuple(ps)))
    if all(p[0] == 'e' for p in ps):
        out = []
        for i, p in enumerate(ps):
            if i:
                out += sep[1]
            out += p[1][1]
        return mkstr(out)
    if not sep[1]:
        return mkstr(to_pieces(ps))
    return ('str', (('join', ps, sep),))


def to_pieces(ps):
    out = []
    for p in ps:
        if p[0] == 'e':
            if p[1][0] == 'str':
                out += p[1][1]
            elif p[1][0] in ('ch', 'cv'):
                out.append(p[1])
            else:
                raise Giveup('text of %r' % (p,))
        else:
            out.append(('tm', p[1], tuple((c, mkstr(to_pieces(q))[1]) for c, q in p[2])))
    return tuple(out)


def text_of_parts(I, st, ps, init):
    """outcomes with the text made of the elements (chars or texts) appended to init"""
    outs = gather(I, st, ps, lambda s, v: [(Out(RET, s, None), I.D(s, v)[1] if I.D(s, v)[0] == 'str' else (I.D(s, v),))], init)
    return outs


def fin(o):
    return o


def fin_str(I, o, cell, path):
    if o.kind == RET:
        o.st = o.st.copy()
        I.write(o.st, cell, path, o.val)
        o.val = UNIT
    return o


@m('[T]::contains', 'Vec::contains')
def _contains(c):
    I = c.I
    v = c.D(0)
    x = c.D(1)
    work, out = [(c.st, list(I.parts(c.st, v)))], []
    while work:
        s, ps = work.pop()
        if not ps:
            out.append((s, False))
            continue
        p = ps[0]
        if p[0] != 'e':
            return boolean(I.truth(s, ('b', ('contains', v, x))))
        for s2, r in equal(I, s, p[1], x):
            if r:
                out.append((s2, True))
            else:
                work.append((s2, ps[1:]))
    return boolean(out)


@m('[T]::starts_with', '[T]::ends_with')
def _sstarts(c):
    I = c.I
    a, b = I.parts(c.st, c.D(0)), I.parts(c.st, c.D(1))
    if any(p[0] != 'e' for p in a + b):
        raise Giveup('prefix test on an unbounded sequence')
    if len(b) > len(a):
        return ret(c.st, FALSE)
    a = a[:len(b)] if c.key.endswith('starts_with') else a[len(a) - len(b):]
    return boolean(equal(I, c.st, ('seq', a), ('seq', b)))


# ------------------------------------------------------------ iterators
@m('Iterator::next', 'DoubleEndedIterator::next_back')
def _next(c):
    I = c.I
    back = c.key.endswith('next_back')
    if c.a[0][0] != 'ref':
        raise Giveup('next on %r' % (c.a[0],))
    cell, path, v = resolve(I, c.st, c.a[0])
    st = c.st
    if v[0] == 'box':
        path = tuple(path) + (('*',),)
        v = v[1]
    if v[0] == 'adt':
        st = st.copy()
        if I.last(v[1]) in ('Range', 'RangeInclusive') and not back:
            lo, hi = I.nrm(st, v[3][0]), I.nrm(st, v[3][1])
            if lo[0] == 'i' and hi[0] == 'i':
                incl = 1 if I.last(v[1]) == 'RangeInclusive' else 0
                if lo[1] >= hi[1] + incl:
                    return ret(st, none(I, c.rty))
                I.write(st, cell, path, ('adt', v[1], v[2], (('i', lo[1] + 1),) + v[3][1:]))
                return ret(st, some(I, c.rty, lo))
        I.write(st, cell, path, ('it', iter_parts(I, st, v)))
    return optional(I, c.rty, advance(I, st, cell, path, back))


@m('Peekable::peek')
def _peek(c):
    I = c.I
    cell, path, v = resolve(I, c.st, c.a[0])
    s0 = c.st.copy()
    out = []
    ps = I.parts(c.st, v)
    if not ps:
        return ret(c.st, none(I, c.rty))
    if ps[0][0] == 'e':
        return ret(c.st, some(I, c.rty, vref(ps[0][1])))
    raise Giveup('peek at an unbounded sequence')


@m('Iterator::nth')
def _nth(c):
    I = c.I
    n = I.nrm(c.st, c.a[1])
    if n[0] != 'i':
        raise Giveup('nth(%r)' % (n,))
    cell, path, v = resolve(I, c.st, c.a[0])
    work = [(c.st, n[1])]
    out = []
    while work:
        s, k = work.pop()
        for s2, x in advance(I, s, cell, path):
            if x is None or k == 0:
                out.append((s2, x))
            else:
                work.append((s2, k - 1))
    return optional(I, c.rty, out)


def own(c, i=0):
    """parts of the iterator argument (by value or by &mut)"""
    I, st = c.I, c.st
    v = c.a[i]
    if v[0] == 'ref':
        cell, path, x = resolve(I, st, v)
        if x[0] == 'it':
            if cell in st.loop:
                raise Giveup('an iterator of an enclosing loop is consumed')
            I.write(st, cell, path, ('it', ()))
            return x[1]
    return iter_parts(I, st, v)


@m('Iterator::map')
def _map(c):
    I = c.I
    f = c.a[1]
    ps = own(c)
    outs = gather(I, c.st, ps, lambda s, v: [(o, [('e', o.val)]) for o in closure(I, s, f, [v], c.span)])
    return [as_it(o) for o in outs]


def as_it(o):
    if o.kind == RET:
        o.val = ('it', o.val[1])
    return o


@m('Iterator::filter')
def _filter(c):
    I = c.I

    def f(s, v):
        res = []
        for o in closure(I, s, c.a[1], [vref(v)], c.span):
            if o.kind != RET:
                res.append((o, []))
                continue
            for s2, r in I.truth(o.st, o.val):
                res.append((Out(RET, s2, None), [('e', v)] if r else []))
        return res
    return [as_it(o) for o in gather(I, c.st, own(c), f)]


def span_while(I, st, ps, test):
    """[(state, leading parts, remaining parts) | (Out,)]: the longest prefix whose elements pass test(state, v) -> [(Out, bool)]"""
    ps = I.parts(st, ('seq', tuple(ps)))
    work, out = [(st, 0, ())], []
    while work:
        s, i, head = work.pop()
        if i == len(ps):
            out.append((s, head, ()))
            continue
        p = ps[i]
        if p[0] == 'e':
            for o, r in test(s, p[1]):
                if o.kind != RET:
                    out.append((o,))
                elif r:
                    work.append((o.st, i + 1, head + (p,)))
                else:
                    out.append((o.st, head, ps[i:]))
            continue

        def f(s2, v):
            return [(o, [('e', v)] if r else []) for o, r in test(s2, v)]
        for o in gather(I, s, (p,), f):
            if o.kind != RET:
                out.append((o,))
            elif I.parts(o.st, o.val) == I.parts(o.st, ('seq', (p,))):
                work.append((o.st, i + 1, head + (p,)))
            elif not o.val[1]:
                for s3, r in I.cmp(o.st, 'Eq', I.length(o.st, ('seq', (p,))), ('i', 0)):
                    if r:
                        work.append((s3, i + 1, head))
                    else:
                        out.append((s3, head, ps[i:]))
            else:
                raise Giveup('a prefix that ends within an unbounded sequence')
    return out


def tester(c, f, ref):
    """a predicate as test for span_while"""
    I = c.I

    def test(s, v):
        res = []
        for o in closure(I, s, f, [vref(v) if ref else v], c.span):
            if o.kind != RET:
                res.append((o, False))
            else:
                res += [(Out(RET, s2, None), r) for s2, r in I.truth(o.st, o.val)]
        return res
    return test


@m('Iterator::skip_while', 'Iterator::take_while')
def _skip_while(c):
    I = c.I
    if c.a[0][0] == 'ref':
        raise Giveup(c.key + ' of a borrowed iterator')
    return [x[0] if len(x) == 1 else Out(RET, x[0], ('it', x[1] if 'take' in c.key else x[2])) for x in span_while(I, c.st, own(c), tester(c, c.a[1], True))]


@m('Iterator::partition')
def _partition(c):
    I = c.I
    t = I.types[c.rty]
    kinds = [I.last(x) for x in t['el']] if t['k'] == 'tuple' else []
    if len(kinds) != 2 or set(kinds) - {'Vec', 'String'}:
        raise Giveup('partition into %s' % I.tname(c.rty))
    parts = own(c)
    states = [(c.st, [])]
    out = []
    for keep in (True, False):
        def f(s, v):
            res = []
            for o in closure(I, s, c.a[1], [vref(v)], c.span):
                if o.kind != RET:
                    res.append((o, []))
                    continue
                for s2, r in I.truth(o.st, o.val):
                    res.append((Out(RET, s2, None), [('e', v)] if r == keep else []))
            return res
        nxt = []
        for s, got in states:
            for o in gather(I, s, parts, f):
                if o.kind != RET:
                    out.append(o)
                    continue
                nxt.append((o.st, got + [tuple(o.val[1])]))
        states = nxt
    for s, got in states:
        vals = []
        for k, ps in zip(kinds, got):
            if k == 'Vec':
                vals.append(('seq', ps))
            else:
                r = text_of_parts(I, s, ps, S(''))
                if len(r) != 1 or r[0].kind != RET or r[0].st is not s:
                    raise Giveup('partition of characters')
                vals.append(r[0].val)
        out.append(Out(RET, s, ('tup', tuple(vals))))
    return out


@m('Iterator::filter_map')
def _filter_map(c):
    I = c.I

    def f(s, v):
        res = []
        for o in closure(I, s, c.a[1], [v], c.span):
            if o.kind != RET:
                res.append((o, []))
                continue
            for s2, x in I.expand(o.st, o.val):
                res.append((Out(RET, s2, None), [('e', y) for y in x[3]]))
        return res
    return [as_it(o) for o in gather(I, c.st, own(c), f)]


@m('Iterator::flat_map', 'Iterator::flatten')
def _flat_map(c):
    I = c.I

    def f(s, v):
        if c.key.endswith('flatten'):
            return [(Out(RET, s, None), iter_parts(I, s, v))]
        return [(o, iter_parts(I, o.st, o.val) if o.kind == RET else []) for o in closure(I, s, c.a[1], [v], c.span)]
    return [as_it(o) for o in gather(I, c.st, own(c), f)]


@m('Iterator::for_each', 'Iterator::inspect')
def _for_each(c):
    I = c.I
    if c.key.endswith('inspect'):
        return ret(c.st, ('it', own(c)))
    out = []
    st = c.st.copy()
    f = c.a[1]
    h = I.heap(st, f)
    for o in drive(I, st, own(c), lambda s, v: closure(I, s, ('ref', h, ()), [v], c.span)):
        if o.kind == RET:
            o.val = UNIT
        out.append(o)
    return out


@m('Iterator::fold', 'Iterator::rfold', 'DoubleEndedIterator::rfold')
def _fold(c):
    I = c.I
    st = c.st.copy()
    h = I.heap(st, c.a[1])

    def body(s, v):
        res = []
        for o in closure(I, s, c.a[2], [s.cells[h], v], c.span, c.rty):
            if o.kind == RET:
                o.st = o.st.copy()
                o.st.cells[h] = o.val
            res.append(o)
        return res
    ps = own(c)
    if c.key.endswith('rfold'):
        ps = I.reverse(ps)
    out = []
    for o in drive(I, st, ps, body):
        if o.kind == RET:
            o.val = o.st.cells.pop(h)
        out.append(o)
    return out


@m('Iterator::try_fold', 'Iterator::try_rfold', 'DoubleEndedIterator::try_rfold')
def _try_fold(c):
    I = c.I
    t = I.types[c.rty]
    good, bad = [i for i, v in enumerate(t['variants']) if v['name'] in ('Ok', 'Some', 'Continue')], [i for i, v in enumerate(t['variants']) if v['name'] in ('Err', 'None', 'Break')]
    if len(good) != 1 or len(bad) != 1:
        raise Giveup('try_fold into %s' % I.tname(c.rty))
    st = c.st.copy()
    f, h = I.heap(st, c.a[2]), I.heap(st, c.a[1])
    cell, path, v = resolve(I, st, c.a[0]) if c.a[0][0] == 'ref' else (None, None, c.a[0])
    if cell is not None and cell in st.loop:
        raise Giveup('an iterator of an enclosing loop is consumed')
    ps = iter_parts(I, st, v)
    if 'rfold' in c.key:
        ps = I.reverse(ps)

    def body(s, v):
        out = []
        for o in closure(I, s, ('ref', f, ()), [s.cells[h], v], c.span):
            if o.kind != RET:
                out.append(o)
                continue
            for s2, r in I.expand(o.st, I.D(o.st, o.val)):
                if r[2] == good[0]:
                    s2 = s2.copy()
                    s2.cells[h] = r[3][0]
                    out.append(Out(RET, s2, None))
                else:
                    out.append(Out(EXIT, s2, r))
        return out
    out = []
    for o in drive(I, st, ps, body):
        stopped = o.kind == EXIT
        if o.kind in (RET, EXIT):
            if not stopped:
                o.val = ('adt', c.rty, good[0], (o.st.cells[h],))
            o.kind = RET
            o.st = o.st.copy()
            if cell is not None:
                I.write(o.st, cell, path, ('it', ()) if not stopped else ('unk', 'partly consumed'))
        out.append(o)
    return out


@m('Vec::split_off', '[T]::split_at')
def _split_off(c):
    I = c.I
    k = I.nrm(c.st, c.a[1])
    x = c.D(0)
    out = []
    L = I.length(c.st, x)
    for s, over in I.cmp(c.st, 'Gt', k, L):
        if over:
            out += panic(s, 'split beyond the end')
            continue
        L = I.length(s, x)
        if k[0] == 'i':
            head, rest = I.subseq(s, x, 0, end=k[1])[1] if k[1] else (), I.subseq(s, x, k[1])[1]
        elif L[0] == 'n' and L[2] == k[2]:
            back = L[1] - k[1]
            head, rest = I.subseq(s, x, 0, back)[1], tail(I, s, x, back)
        else:
            raise Giveup('split at %r' % (k,))
        if c.key == '[T]::split_at':
            out.append(Out(RET, s, ('tup', (vref(('seq', tuple(head))), vref(('seq', tuple(rest)))))))
            continue
        s = s.copy()
        cell, path, _ = resolve(I, s, c.a[0])
        I.write(s, cell, path, ('seq', tuple(head)))
        out.append(Out(RET, s, ('seq', tuple(rest))))
    return out


@m('Vec::retain')
def _retain(c):
    I = c.I
    cell, path, x = resolve(I, c.st, c.a[0])
    st = c.st.copy()
    f = I.heap(st, c.a[1])

    def keep(s, v):
        res = []
        for o in closure(I, s, ('ref', f, ()), [vref(v)], c.span):
            if o.kind != RET:
                res.append((o, []))
                continue
            for s2, r in I.truth(o.st, o.val):
                res.append((Out(RET, s2, None), [('e', v)] if r else []))
        return res
    out = []
    for o in gather(I, st, I.parts(st, x), keep):
        if o.kind == RET:
            o.st = o.st.copy()
            I.write(o.st, cell, path, o.val)
            o.val = UNIT
        out.append(o)
    return out


@m('[T]::swap', '[T]::rotate_left', '[T]::rotate_right')
def _rotate(c):
    I = c.I
    cell, path, x = resolve(I, c.st, c.a[0])
    ps = I.parts(c.st, x)
    ks = [I.nrm(c.st, k) for k in c.a[1:]]
    if any(k[0] != 'i' for k in ks):
        raise Giveup(c.key)
    if c.key == '[T]::swap':
        i, j = ks[0][1], ks[1][1]
        if any(p[0] != 'e' for p in ps[:max(i, j) + 1]):
            raise Giveup(c.key)
        if max(i, j) >= len(ps):
            return panic(c.st, 'swap out of bounds')
        q = list(ps)
        q[i], q[j] = q[j], q[i]
    else:
        k = ks[0][1]
        front = c.key.endswith('left')
        mv = ps[:k] if front else ps[len(ps) - k:]
        if any(p[0] != 'e' for p in mv) or len(mv) != k:
            raise Giveup(c.key)
        q = ps[k:] + mv if front else mv + ps[:len(ps) - k]
    return ret(upd(c, lambda _: ('seq', tuple(q))), UNIT)


@m('Itertools::collect_tuple', 'Itertools::next_tuple')
def _collect_tuple(c):
    I = c.I
    pay = I.fields(c.rty, I.variant(c.rty, 'Some'))[0]
    n = len(I.types[pay]['el'])
    whole = c.key.endswith('collect_tuple')
    if c.a[0][0] == 'ref' and not whole:
        cell, path, v = resolve(I, c.st, c.a[0])
        if cell in c.st.loop:
            raise Giveup('an iterator of an enclosing loop is consumed')
    else:
        v = ('it', own(c))
    st = c.st.copy()
    h = I.heap(st, ('it', tuple(I.parts(st, v))))
    work, out = [(st, ())], []
    while work:
        s, got = work.pop()
        if len(got) == n and not whole:
            s = s.copy()
            left = s.cells.pop(h)
            I.write(s, cell, path, left)
            out.append(Out(RET, s, some(I, c.rty, ('tup', got))))
            continue
        for s2, x in advance(I, s, h, ()):
            if (x is None) != (len(got) == n):
                s2 = s2.copy()
                s2.cells.pop(h, None)
                if not whole:
                    I.write(s2, cell, path, ('it', ()))
                out.append(Out(RET, s2, none(I, c.rty)))
            elif x is None:
                s2 = s2.copy()
                s2.cells.pop(h, None)
                out.append(Out(RET, s2, some(I, c.rty, ('tup', got))))
            else:
                work.append((s2, got + (x,)))
    return out


@m('Itertools::format')
def _itformat(c):
    return _join(Call(c.I, c.F, c.a, c.rty, c.st, c.span, 'Itertools::join'))


@m('String::remove')
def _sremove(c):
    I = c.I
    k = I.nrm(c.st, c.a[1])
    if k != ('i', 0):
        raise Giveup('removal inside a text')
    cell, path, x = resolve(I, c.st, c.a[0])
    out = []
    for s, ps in char_parts(I, c.st, x):
        if not ps:
            out += panic(s, 'removal from an empty text')
            continue
        if ps[0][0] != 'e':
            raise Giveup('removal inside a repetition')
        s = s.copy()
        a = ps[0][1]
        rest = cut_front(I, s, I.tnorm(s, x), len(a[1].encode())) if a[0] == 'ch' else cut_front(I, s, I.tnorm(s, x), 1) if all(T.ascii1(y) for y in I.cset(s, a[1])) else None
        I.write(s, cell, path, mkstr(to_pieces(ps[1:])) if rest is None else rest)
        out.append(Out(RET, s, a))
    return out


@m('Iterator::unzip')
def _unzip(c):
    I = c.I
    ps = own(c)
    sides = []
    for i in (0, 1):
        sides.append(('seq', keep_total(I, ps, mapparts(ps, lambda x: x[1][i]))))
    t = I.types[c.rty]
    if t['k'] != 'tuple' or any(I.last(x) != 'Vec' for x in t['el']):
        raise Giveup('unzip into %s' % I.tname(c.rty))
    return ret(c.st, ('tup', tuple(sides)))


@m('Iterator::reduce')
def _reduce(c):
    I = c.I
    st = c.st.copy()
    h = I.heap(st, ('it', own(c)))
    out = []
    for s, v in advance(I, st, h, ()):
        if v is None:
            out.append(Out(RET, s, none(I, c.rty)))
            continue
        s = s.copy()
        ps = s.cells.pop(h)[1]
        a = I.heap(s, v)

        def body(s2, x):
            res = []
            for o in closure(I, s2, c.a[1], [s2.cells[a], x], c.span):
                if o.kind == RET:
                    o.st = o.st.copy()
                    o.st.cells[a] = o.val
                res.append(o)
            return res
        for o in drive(I, s, ps, body):
            if o.kind == RET:
                o.val = some(I, c.rty, o.st.cells.pop(a))
            out.append(o)
    return out


@m('Iterator::any', 'Iterator::all')
def _any(c):
    I = c.I
    stop = c.key.endswith('any')

    def body(s, v):
        res = []
        for o in closure(I, s, c.a[1], [v], c.span):
            if o.kind != RET:
                res.append(o)
                continue
            for s2, r in I.truth(o.st, o.val):
                res.append(Out(EXIT if r == stop else RET, s2, ('i', int(stop))))
        return res
    out = []
    for o in drive(I, c.st, own(c), body):
        if o.kind == RET:
            o.val = ('i', int(not stop))
        elif o.kind == EXIT:
            o.kind = RET
        out.append(o)
    return out


@m('Iterator::find', 'Iterator::find_map', 'Iterator::position')
def _find(c):
    I = c.I
    if any(p[0] != 'e' for p in c.I.parts(c.st, ('it', own_peek(c)))):
        if c.key != 'Iterator::find':
            raise Giveup(c.key + ' over an unbounded sequence')
    if c.key == 'Iterator::position':
        out = []
        ref = resolve(I, c.st, c.a[0])[:2] if c.a[0][0] == 'ref' else None
        for x in span_while(I, c.st, own(c), lambda s, v: [(o, not r) for o, r in tester(c, c.a[1], False)(s, v)]):
            if len(x) == 1:
                out.append(x[0])
                continue
            s = x[0].copy()
            if ref:
                I.write(s, *ref, ('it', x[2][1:]))
            out.append(Out(RET, s, some(I, c.rty, ('i', len(x[1]))) if x[2] else none(I, c.rty)))
        return out

    def body(s, v):
        res = []
        for o in closure(I, s, c.a[1], [vref(v)] if c.key == 'Iterator::find' else [v], c.span):
            if o.kind != RET:
                res.append(o)
            elif c.key == 'Iterator::find_map':
                for s2, x in I.expand(o.st, o.val):
                    res.append(Out(EXIT, s2, x) if x[3] else Out(RET, s2, None))
            else:
                for s2, r in I.truth(o.st, o.val):
                    res.append(Out(EXIT, s2, some(I, c.rty, v)) if r else Out(RET, s2, None))
        return res
    out = []
    for o in drive(I, c.st, own(c), body):
        if o.kind == RET:
            o.val = none(I, c.rty)
        elif o.kind == EXIT:
            o.kind = RET
        out.append(o)
    return out


def own_peek(c):
    v = c.a[0]
    if v[0] == 'ref':
        return resolve(c.I, c.st, v)[2][1]
    return iter_parts(c.I, c.st, v)


@m('Iterator::rev')
def _rev(c):
    ps = own(c)
    return ret(c.st, ('it', keep_total(c.I, ps, c.I.reverse(ps)[::-1])[::-1] if False else c.I.reverse(ps)))


@m('Iterator::zip', 'iter::zip')
def _zip(c):
    I = c.I
    a, b = list(I.parts(c.st, ('it', own(c)))), list(I.parts(c.st, ('it', iter_parts(I, c.st, c.a[1]))))
    out = []
    while a and b:
        p, q = a[0], b[0]
        if p[0] == 'e' and q[0] == 'e':
            out.append(('e', ('tup', (p[1], q[1]))))
        elif p[0] == 'm' and q[0] == 'm' and p[1] == q[1] and I.one_to_one(p) and I.one_to_one(q):
            br = []
            for c1, x in p[2]:
                for c2, y in q[2]:
                    d = dict(c1)
                    if all(d.get(k, v) == v for k, v in c2):
                        br.append((c1 | c2, (('e', ('tup', (x[0][1], y[0][1]))),)))
            part = ('m', p[1], tuple(sorted(br, key=repr)))
            I.total = I.total | {part}
            out.append(part)
        else:
            raise Giveup('zip of differently shaped sequences')
        a.pop(0)
        b.pop(0)
    if any(p[0] != 'e' for p in a + b):
        raise Giveup('zip of differently long sequences')
    return ret(c.st, ('it', tuple(out)))


@m('Iterator::enumerate')
def _enum(c):
    I = c.I
    out, n = [], 0
    for p in I.parts(c.st, ('it', own(c))):
        if p[0] == 'e':
            if n is None:
                raise Giveup('index after an unbounded sequence')
            out.append(('e', ('tup', (('i', n), p[1]))))
            n += 1
        else:
            if n is None or not I.one_to_one(p):
                raise Giveup('index into a filtered sequence')
            ix = ('n', n, ('ix', ('el', base_src(p[1]))), 'len')
            q = ('m', p[1], tuple((cc, (('e', ('tup', (ix, x[0][1]))),)) for cc, x in p[2]))
            if p[1][0] == 'rev':
                raise Giveup('enumeration of a reversed sequence')
            if p in I.total:
                I.total = I.total | {q}
            out.append(q)
            n = None
    return ret(c.st, ('it', tuple(out)))


@m('Iterator::chain')
def _chain(c):
    return ret(c.st, ('it', own(c) + tuple(iter_parts(c.I, c.st, c.a[1]))))


@m('iter::once')
def _once(c):
    return ret(c.st, ('it', (('e', c.a[0]),)))


@m('iter::empty')
def _empty(c):
    return ret(c.st, ('it', ()))


@m('Iterator::cloned', 'Iterator::copied')
def _cloned(c):
    ps = own(c)
    return ret(c.st, ('it', keep_total(c.I, ps, mapparts(ps, lambda v: strip1(c.I, c.st, v)))))


@m('Iterator::peekable', 'Iterator::fuse', 'Iterator::by_ref', 'Iterator::into_iter')
def _same(c):
    if c.key.endswith('by_ref'):
        return ret(c.st, c.a[0])
    return ret(c.st, ('it', own(c)))


@m('Iterator::skip', 'Iterator::take')
def _skip(c):
    I = c.I
    n = I.nrm(c.st, c.a[1])
    v = ('seq', own(c))
    if n[0] != 'i':
        z = I.nrm(c.st, I.length(c.st, v))
        if c.key.endswith('take') and n[0] == 'n' and z[0] == 'n' and n[2] == z[2]:
            return ret(c.st, ('it', I.subseq(c.st, v, 0, max(0, z[1] - n[1]))[1]))
        raise Giveup('%s(%r)' % (c.key, n))
    out = []
    for s, b in I.cmp(c.st, 'Le', I.length(c.st, v), n):
        if c.key.endswith('skip'):
            out.append(Out(RET, s, ('it', () if b else I.subseq(s, v, n[1])[1])))
        else:
            out.append(Out(RET, s, ('it', v[1] if b else I.subseq(s, v, 0, end=n[1])[1])))
    return out


@m('Iterator::count')
def _count(c):
    return ret(c.st, c.I.length(c.st, ('seq', own(c))))


@m('Iterator::last')
def _last(c):
    st = c.st.copy()
    h = c.I.heap(st, ('it', own(c)))
    st.loop = frozenset()
    r = []
    for s, v in advance(c.I, st, h, (), back=True):
        s = s.copy()
        s.loop = c.st.loop
        s.cells.pop(h, None)
        r.append((s, v))
    return optional(c.I, c.rty, r)


@m('Iterator::max', 'Iterator::min')
def _max(c):
    I = c.I
    v = ('seq', own(c))
    out = []
    for s, e in I.cmp(c.st, 'Eq', I.length(c.st, v), ('i', 0)):
        if e:
            out.append(Out(RET, s, none(I, c.rty)))
            continue
        ps = I.parts(s, v)
        vals = []
        for p in ps:
            vals += [p[1]] if p[0] == 'e' else [x[0][1] for _, x in p[2] if x]
        vals = [I.nrm(s, I.D(s, x)) for x in vals]
        if all(x[0] == 'i' for x in vals) and len(set(vals)) == 1:
            t = I.fields(c.rty, I.variant(c.rty, 'Some'))[0]
            w = vals[0]
            out.append(Out(RET, s, some(I, c.rty, vref(w) if I.types[t]['k'] == 'ref' else w)))
            continue
        if all(x[0] == 'i' for x in vals) and all(p[0] == 'e' for p in ps):
            f = max if c.key.endswith('max') else min
            out.append(Out(RET, s, some(I, c.rty, ('i', f(x[1] for x in vals)))))
            continue
        t = I.fields(c.rty, I.variant(c.rty, 'Some'))[0]
        w = I.opaque(('ap', c.key, (('seq', ps),)), t)
        if w[0] == 'n' and all(x[0] in ('i', 'n') for x in vals):
            los = [I.ints(s, x)[0] for x in vals]
            his = [I.ints(s, x)[1] for x in vals]
            s = s.copy()
            s.facts[('iv', w[2])] = (min(los) if None not in los else None, max(his) if None not in his else None, frozenset())
        out.append(Out(RET, s, some(I, c.rty, w)))
    return out


@m('Iterator::sum', 'Iterator::product')
def _sum(c):
    I = c.I
    ps = I.parts(c.st, ('it', own(c)))
    op = 'Add' if c.key.endswith('sum') else 'Mul'
    if all(p[0] == 'e' for p in ps):
        acc = ('i', 0 if op == 'Add' else 1)
        for p in ps:
            acc = big(I, c.st, op, acc, I.D(c.st, p[1]))
        return ret(c.st, acc)
    return ret(c.st, I.opaque(('ap', c.key, (('seq', ps),)), c.rty))


@m('Iterator::collect', 'Itertools::collect_vec', 'FromIterator::from_iter', 'Vec::from_iter', 'String::from_iter')
def _collect(c):
    I, st = c.I, c.st
    ps = iter_parts(I, st, c.a[0]) if c.a[0][0] != 'ref' else own(c)
    n = I.last(c.rty)
    if n in ('Vec', 'VecDeque'):
        return ret(st, ('seq', tuple(ps)))
    if n == 'Box':
        return ret(st, ('seq', tuple(ps)))
    if n == 'String':
        return text_of_parts(I, st, ps, S(''))
    if n in ('BTreeMap', 'HashMap'):
        return ret(st, ('map', None, tuple(ps)))
    if n in ('Result', 'Option'):
        good = 'Ok' if n == 'Result' else 'Some'
        gi = I.variant(c.rty, good)
        inner_t = I.fields(c.rty, gi)[0]
        it = I.last(inner_t)
        if it not in ('Vec', 'String'):
            raise Giveup('collect into %s' % I.tname(c.rty))
        s0 = st.copy()
        r = I.heap(s0, ('seq', ()) if it == 'Vec' else S(''))

        def body(s, v):
            res = []
            for s2, x in I.expand(s, v):
                vn = I.types[x[1]]['variants'][x[2]]['name']
                s2 = s2.copy()
                if vn in ('Ok', 'Some'):
                    cur = s2.cells[r]
                    s2.cells[r] = ('seq', cur[1] + (('e', x[3][0]),)) if it == 'Vec' else mkstr(cur[1] + to_pieces((('e', x[3][0]),)))
                    res.append(Out(RET, s2, None))
                else:
                    res.append(Out(EXIT, s2, ('adt', c.rty, 1 - gi, x[3])))
            return res
        out = []
        for o in drive(I, s0, ps, body):
            if o.kind == RET:
                o.val = ('adt', c.rty, gi, (o.st.cells.pop(r),))
            elif o.kind == EXIT:
                o.kind = RET
                o.st.cells.pop(r, None)
            out.append(o)
        return out
    raise Giveup('collect into %s' % I.tname(c.rty))


# ------------------------------------------------------------ maps
@m('BTreeMap::new', 'HashMap::new', 'BTreeSet::new', 'HashSet::new')
def _mnew(c):
    return ret(c.st, ('map', None, ()))


@m('BTreeMap::insert', 'HashMap::insert')
def _minsert(c):
    I = c.I
    cell, path, x = resolve(I, c.st, c.a[0])
    if x[0] != 'map':
        raise Giveup('insert into %r' % (x,))
    st = c.st.copy()
    I.write(st, cell, path, ('map', x[1], x[2] + (('e', ('tup', (c.a[1], c.a[2]))),)))
    return ret(st, I.opaque(('replaced', x, c.a[1]), c.rty))


def lookup(I, st, v, k):
    """[(state, the value under the key k of the map v, or None)]"""
    k = deepD(I, st, k)
    for p in reversed(v[2]):
        if p[0] != 'e':
            raise Giveup('lookup in an unbounded map')
        kk = deepD(I, st, p[1][1][0])
        if kk == k:
            return [(st, p[1][1][1])]
        if kk[0] == 'n' and k[0] == 'n' and kk[2] == k[2] or kk[0] == 'i' and k[0] == 'i':
            continue
        raise Giveup('lookup of %r among %r' % (k, kk))
    if v[1] is None:
        return [(st, None)]
    f = ('has', v[1][0], k)
    out = []
    for val in (True, False):
        if st.facts.get(f, val) != val:
            continue
        s = st.copy()
        s.facts[f] = val
        out.append((s, I.opaque(('get', v[1][0], k), v[1][2]) if val else None))
    return out


def map_get(I, st, v, k, rty):
    return [Out(RET, s, none(I, rty) if x is None else some(I, rty, vref(x))) for s, x in lookup(I, st, v, k)]


@m('BTreeMap::get', 'HashMap::get')
def _mget(c):
    return map_get(c.I, c.st, c.D(0), c.a[1], c.rty)


@m('BTreeMap::get_key_value', 'HashMap::get_key_value')
def _mgetkv(c):
    I = c.I
    k = vref(deepD(I, c.st, c.a[1]))
    return [Out(RET, s, none(I, c.rty) if x is None else some(I, c.rty, ('tup', (k, vref(x))))) for s, x in lookup(I, c.st, c.D(0), c.a[1])]


@m('BTreeMap::contains_key', 'HashMap::contains_key')
def _mhas(c):
    I = c.I
    return [Out(RET, s, ('i', int(x is not None))) for s, x in lookup(I, c.st, c.D(0), c.a[1])]


@m('BTreeMap::len', 'BTreeMap::is_empty', 'HashMap::len', 'HashMap::is_empty')
def _mlen(c):
    I = c.I
    v = c.D(0)
    if not v[2]:
        n = ('i', 0) if v[1] is None else ('n', 0, ('len', I.ident(('items', v[1][0], v[1][1], v[1][2]))), 'len')
    elif len(v[2]) == 1 and v[2][0][0] == 'e' and v[1] is None or number_keys(v):
        n = ('i', len(v[2]))
    else:
        n = ('n', 0, ('maplen', v), 'len')
        if any(p[0] == 'e' for p in v[2]) and ('iv', n[2]) not in c.st.facts:
            c.st.facts[('iv', n[2])] = (1, (1 << 63) - 1, frozenset())
    if c.key.endswith('is_empty'):
        return boolean(I.cmp(c.st, 'Eq', n, ('i', 0)))
    return ret(c.st, I.nrm(c.st, n))


@m('BTreeMap::iter', 'HashMap::iter')
def _miter(c):
    return ret(c.st, ('it', map_items(c.I, c.st, c.D(0), True)))


@m('BTreeMap::values', 'BTreeMap::keys', 'BTreeMap::into_values', 'BTreeMap::into_keys')
def _mvalues(c):
    i = 1 if 'values' in c.key else 0
    refs = 'into' not in c.key
    ps = map_items(c.I, c.st, c.D(0), refs)
    return ret(c.st, ('it', mapparts(ps, lambda x: x[1][i])))


# ------------------------------------------------------------ equality and order
def equal(I, st, a, b):
    """[(state, bool)]"""
    a, b = I.D(st, a), I.D(st, b)
    a, b = I.nrm(st, a), I.nrm(st, b)
    if I.rel is not None:
        r = I.rel(st, a, b)
        if r is not None:
            return [(s, x == 0) for s, x in r]
    if a == b and a[0] != 'unk':
        return [(st, True)]
    if a[0] == 'str' and b[0] == 'str':
        return I.text_eq(st, a, b)
    if a[0] in ('ch', 'cv') or b[0] in ('ch', 'cv'):
        return I.char_eq(st, a, b)
    if a[0] == 'b' or b[0] == 'b':
        return [(s2, x == y) for s, x in I.truth(st, a) for s2, y in I.truth(s, b)]
    if a[0] in ('i', 'n') and b[0] in ('i', 'n'):
        return I.cmp(st, 'Eq', a, b)
    if a[0] == 'tup' and b[0] == 'tup':
        return all_equal(I, st, list(zip(a[1], b[1])))
    if a[0] in ('adt', 'o') and b[0] in ('adt', 'o'):
        if a[0] == 'o' and b[0] == 'o' and not (I.types[a[2]].get('kind') == 'enum' and all(not v['fields'] for v in I.types[a[2]]['variants'])):
            return I.truth(st, ('b', ('veq',) + tuple(sorted((a, b), key=repr))))
        t = a[1] if a[0] == 'adt' else b[1]
        if I.last(t) in ('BigDecimal',):
            return I.truth(st, ('b', ('veq',) + tuple(sorted((a, b), key=repr))))
        out = []
        for s, x in I.expand(st, a):
            for s2, y in I.expand(s, b):
                if x[2] != y[2]:
                    out.append((s2, False))
                else:
                    out += all_equal(I, s2, list(zip(x[3], y[3])))
        return out
    if a[0] in ('seq', 'it') and b[0] in ('seq', 'it'):
        out = []
        for s, r in I.cmp(st, 'Eq', I.length(st, a), I.length(st, b)):
            if not r:
                out.append((s, False))
                continue
            pa, pb = I.parts(s, a), I.parts(s, b)
            if all(p[0] == 'e' for p in pa + pb):
                out += all_equal(I, s, [(x[1], y[1]) for x, y in zip(pa, pb)])
            elif len(pa) == 1 and all(p[0] == 'e' for p in pb) or len(pb) == 1 and all(p[0] == 'e' for p in pa):
                pairs = []
                L, M = (a, pb) if all(p[0] == 'e' for p in pb) else (b, pa)
                ok_ = True
                for i, y in enumerate(M):
                    x = I.at(s, L, ('i', i))
                    if x is None:
                        ok_ = False
                        break
                    pairs.append((x, y[1]))
                out += all_equal(I, s, pairs) if ok_ else I.truth(s, ('b', ('veq', a, b)))
            else:
                out += I.truth(s, ('b', ('veq',) + tuple(sorted((a, b), key=repr))))
        return out
    return I.truth(st, ('b', ('veq',) + tuple(sorted((a, b), key=repr))))


def all_equal(I, st, prs):
    work, out = [(st, prs)], []
    while work:
        s, q = work.pop()
        if not q:
            out.append((s, True))
            continue
        for s2, r in equal(I, s, q[0][0], q[0][1]):
            if r:
                work.append((s2, q[1:]))
            else:
                out.append((s2, False))
    return out


@m('PartialEq::eq', 'PartialEq::ne', 'slice::eq', 'str::eq', 'Iterator::eq', 'Iterator::ne')
def _eq(c):
    r = equal(c.I, c.st, c.a[0], c.a[1])
    neg = c.key.endswith('::ne')
    return boolean([(s, x != neg) for s, x in r])


def compare(I, st, a, b):
    """[(state, -1 | 0 | 1)]"""
    a, b = I.D(st, a), I.D(st, b)
    a, b = I.nrm(st, a), I.nrm(st, b)
    if I.rel is not None:
        r = I.rel(st, a, b)
        if r is not None:
            return r
    if a[0] in ('i', 'n') and b[0] in ('i', 'n'):
        out = []
        for s, lt in I.cmp(st, 'Lt', a, b):
            if lt:
                out.append((s, -1))
            else:
                out += [(s2, 0 if eq else 1) for s2, eq in I.cmp(s, 'Eq', a, b)]
        return out
    if a[0] == 'tup' and b[0] == 'tup':
        out, work = [], [(st, 0)]
        while work:
            s, i = work.pop()
            if i == len(a[1]):
                out.append((s, 0))
                continue
            for s2, r in compare(I, s, a[1][i], b[1][i]):
                if r:
                    out.append((s2, r))
                else:
                    work.append((s2, i + 1))
        return out
    return None


@m('Ord::cmp', 'PartialOrd::partial_cmp', 'Iterator::cmp', 'Iterator::partial_cmp')
def _cmp(c):
    I = c.I
    a, b = c.D(0), c.D(1)
    t = c.rty
    if I.rel is not None:
        r = compare(I, c.st, a, b)
        if r is None:
            raise Giveup('comparison of %s' % (brief_of(a),))
        return [Out(RET, s, ordering(I, t, x)) for s, x in r]
    wrapo = c.key.endswith('partial_cmp')
    ot = I.fields(t, I.variant(t, 'Some'))[0] if wrapo else t

    def o(n):
        v = ('adt', ot, I.variant(ot, n), ())
        return some(I, t, v) if wrapo else v
    if a[0] in ('i', 'n') and b[0] in ('i', 'n'):
        out = []
        for s, lt in I.cmp(c.st, 'Lt', a, b):
            if lt:
                out.append(Out(RET, s, o('Less')))
                continue
            for s2, eq in I.cmp(s, 'Eq', a, b):
                out.append(Out(RET, s2, o('Equal' if eq else 'Greater')))
        return out
    v = ('o', ('ap', 'cmp', (a, b)), ot)
    return ret(c.st, some(I, t, v) if wrapo else v)


def brief_of(v):
    return repr(v)[:80]


def ordering(I, t, n, opt=None):
    """the Ordering (or Some of it) of type t for -1, 0, 1"""
    if opt is None:
        opt = I.last(t) == 'Option'
    if opt:
        return some(I, t, ordering(I, I.fields(t, I.variant(t, 'Some'))[0], n, False))
    return ('adt', t, I.variant(t, ('Equal', 'Greater', 'Less')[n]), ())


def order_cases(I, st, v):
    """[(state, -1 | 0 | 1)] of an Ordering"""
    out = []
    for s, x in I.expand(st, I.D(st, v)):
        n = I.types[x[1]]['variants'][x[2]]['name']
        out.append((s, {'Less': -1, 'Equal': 0, 'Greater': 1}[n]))
    return out


@m('Ordering::then', 'Ordering::then_with')
def _then(c):
    I, out = c.I, []
    for s, x in order_cases(I, c.st, c.a[0]):
        if x:
            out.append(Out(RET, s, ordering(I, c.rty, x)))
        elif c.key.endswith('_with'):
            out += closure(I, s, c.a[1], [], c.span)
        else:
            out.append(Out(RET, s, I.D(s, c.a[1])))
    return out


@m('Ordering::reverse')
def _ordrev(c):
    return [Out(RET, s, ordering(c.I, c.rty, -x)) for s, x in order_cases(c.I, c.st, c.a[0])]


@m('Ordering::is_eq', 'Ordering::is_ne', 'Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge')
def _ordis(c):
    f = {'eq': lambda x: x == 0, 'ne': lambda x: x != 0, 'lt': lambda x: x < 0, 'le': lambda x: x <= 0, 'gt': lambda x: x > 0, 'ge': lambda x: x >= 0}[c.key[-2:]]
    return boolean([(s, f(x)) for s, x in order_cases(c.I, c.st, c.a[0])])


@m('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def _ordmax(c):
    a, b = c.D(0), c.D(1)
    if not (a[0] in ('i', 'n') and b[0] in ('i', 'n')):
        raise Giveup('%s of %r' % (c.key, a))
    return [Out(RET, s, c.a[1] if lt == c.key.endswith('max') else c.a[0]) for s, lt in c.I.cmp(c.st, 'Lt', a, b)]


@m('Iterator::try_for_each')
def _try_for_each(c):
    I = c.I
    t = I.types[c.rty]
    good, bad = [i for i, v in enumerate(t['variants']) if v['name'] in ('Ok', 'Some', 'Continue')], [i for i, v in enumerate(t['variants']) if v['name'] in ('Err', 'None', 'Break')]
    if len(good) != 1 or len(bad) != 1:
        raise Giveup('try_for_each into %s' % I.tname(c.rty))
    st = c.st.copy()
    h = I.heap(st, c.a[1])
    cell, path, v = resolve(I, st, c.a[0]) if c.a[0][0] == 'ref' else (None, None, c.a[0])
    ps = iter_parts(I, st, v)

    def body(s, v):
        out = []
        for o in closure(I, s, ('ref', h, ()), [v], c.span):
            if o.kind != RET:
                out.append(o)
                continue
            for s2, r in I.expand(o.st, I.D(o.st, o.val)):
                out.append(Out(RET, s2, None) if r[2] == good[0] else Out(EXIT, s2, r))
        return out
    out = []
    for o in drive(I, st, ps, body):
        stopped = o.kind == EXIT
        if o.kind == RET:
            o.val = ('adt', c.rty, good[0], (UNIT,) if I.fields(c.rty, good[0]) else ())
        elif o.kind == EXIT:
            o.kind = RET
        if cell is not None and o.kind == RET:
            o.st = o.st.copy()
            I.write(o.st, cell, path, ('it', ()) if not stopped else ('unk', 'partly consumed'))
        out.append(o)
    return out


@m('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _lt(c):
    a, b = c.D(0), c.D(1)
    if c.I.rel is not None:
        r = compare(c.I, c.st, a, b)
        if r is None:
            raise Giveup('comparison of %s' % (brief_of(a),))
        f = {'lt': lambda x: x < 0, 'le': lambda x: x <= 0, 'gt': lambda x: x > 0, 'ge': lambda x: x >= 0}[c.key[-2:]]
        return boolean([(s, f(x)) for s, x in r])
    if a[0] in ('i', 'n') and b[0] in ('i', 'n'):
        return boolean(c.I.cmp(c.st, c.key[-2:].capitalize(), a, b))
    return boolean(c.I.truth(c.st, ('b', ('order', c.key[-2:], a, b))))


def char_order(I, st, op, a, b):
    a, b = I.nrm(st, a), I.nrm(st, b)
    import operator
    f = {'Lt': operator.lt, 'Le': operator.le, 'Gt': operator.gt, 'Ge': operator.ge}[op]
    if a[0] == 'ch' and b[0] == 'ch':
        return [(st, ('i', int(f(a[1], b[1]))))]
    if b[0] == 'ch':
        prs = I.char_is(st, a, lambda s: f(s, b[1]) if T.exact(s) else (f('\U0010ffff', b[1]) if ord(b[1]) < 128 else None))
    elif a[0] == 'ch':
        prs = I.char_is(st, b, lambda s: f(a[1], s) if T.exact(s) else (f(a[1], '\U0010ffff') if ord(a[1]) < 128 else None))
    else:
        prs = I.truth(st, ('b', ('corder', op, a, b)))
    return [(s, ('i', int(r))) for s, r in prs]


# ------------------------------------------------------------ numbers
def big(I, st, op, a, b):
    """exact integer arithmetic, as sums of products in normal form"""
    a, b = I.nrm(st, a), I.nrm(st, b)
    if a[0] not in ('i', 'n') or b[0] not in ('i', 'n'):
        t = a[2] if a[0] == 'o' else b[2] if b[0] == 'o' else None
        return ('o', ('ap', op, (a, b)), t)
    p, q = poly(a), poly(b)
    r = {}
    if op in ('Add', 'Sub'):
        r = dict(p)
        for k, v in q.items():
            r[k] = r.get(k, 0) + (v if op == 'Add' else -v)
    else:
        for k, v in p.items():
            for k2, v2 in q.items():
                kk = tuple(sorted(k + k2, key=repr))
                r[kk] = r.get(kk, 0) + v * v2
    return unpoly({k: v for k, v in r.items() if v})


def poly(v):
    if v[0] == 'i':
        return {(): v[1]} if v[1] else {}
    d = dict(v[2][1]) if isinstance(v[2], tuple) and v[2][0] == 'poly' else {(v[2],): 1}
    if v[1]:
        d[()] = d.get((), 0) + v[1]
    return d


def unpoly(d):
    c = d.pop((), 0)
    if not d:
        return ('i', c)
    if len(d) == 1:
        (k, v), = d.items()
        if v == 1 and len(k) == 1:
            return ('n', c, k[0], 'B')
    return ('n', c, ('poly', tuple(sorted(d.items(), key=repr))), 'B')


def num_kind(I, t):
    n = I.last(t)
    return n in ('BigInt', 'BigUint')


@m('Add::add', 'Sub::sub', 'Mul::mul', 'Neg::neg')
def _arith(c):
    I, st = c.I, c.st
    if not num_kind(I, c.rty):
        if I.last(c.rty) == 'String' and c.key == 'Add::add':
            return ret(st, mkstr(c.D(0)[1] + c.D(1)[1]))
        if I.last(c.rty) == 'BigDecimal':
            return ret(st, pure(I, st, c.key, c.a, c.rty))
        if I.types[c.rty]['k'] == 'int':
            prs = I.binop(st, {'Add': 'Add', 'Sub': 'Sub', 'Mul': 'Mul'}[c.key[:3]], c.D(0), c.D(1), c.rty, True)
            out = []
            for s, v in prs:
                for s2, o in I.truth(s, v[1][1]):
                    out += panic(s2, 'overflow') if o else ret(s2, v[1][0])
            return out
        raise Giveup(c.key)
    if c.key == 'Neg::neg':
        return ret(st, big(I, st, 'Sub', ('i', 0), c.D(0)))
    return ret(st, big(I, st, c.key[:3], c.D(0), c.D(1)))


@m('AddAssign::add_assign', 'SubAssign::sub_assign', 'MulAssign::mul_assign')
def _ariass(c):
    I, st = c.I, c.st.copy()
    cell, path, x = resolve(I, st, c.a[0])
    if x[0] == 'str':
        I.write(st, cell, path, mkstr(x[1] + c.D(1)[1]))
    else:
        I.write(st, cell, path, big(I, st, c.key[:3], x, c.D(1)))
    return ret(st, UNIT)


@m('Pow::pow', 'BigInt::pow', 'num::pow')
def _pow(c):
    I = c.I
    a, b = I.nrm(c.st, c.D(0)), I.nrm(c.st, c.D(1))
    if a[0] not in ('i', 'n') or b[0] not in ('i', 'n'):
        raise Giveup('power')
    return ret(c.st, power(I, c.st, a, b))


def power(I, st, a, b):
    if b[0] == 'i' and 0 <= b[1] <= 8:
        r = ('i', 1)
        for _ in range(b[1]):
            r = big(I, st, 'Mul', r, a)
        return r
    return ('n', 0, ('pow', a, b), 'B')


@m('Zero::is_zero', 'One::is_one', 'Signed::is_negative', 'Signed::is_positive')
def _iszero(c):
    v = c.I.nrm(c.st, c.D(0))
    if v[0] in ('i', 'n'):
        op, k = {'Zero::is_zero': ('Eq', 0), 'One::is_one': ('Eq', 1), 'Signed::is_negative': ('Lt', 0), 'Signed::is_positive': ('Gt', 0)}[c.key]
        return boolean(c.I.cmp(c.st, op, v, ('i', k)))
    return boolean(c.I.truth(c.st, ('b', ('ap', c.key, (v,)))))


@m('Zero::zero', 'One::one')
def _zero(c):
    if num_kind(c.I, c.rty) or c.I.types[c.rty]['k'] == 'int':
        return ret(c.st, ('i', 0 if c.key == 'Zero::zero' else 1))
    return ret(c.st, pure(c.I, c.st, c.key, c.a, c.rty))


def to_int(kind):
    def f(c):
        I = c.I
        v = I.nrm(c.st, c.D(0))
        if v[0] not in ('i', 'n'):
            return ret(c.st, pure(I, c.st, c.key, c.a, c.rty))
        lo, hi = I.rng(kind)
        out = []
        for s, r in I.cmp(c.st, 'Lt', v, ('i', lo)):
            if r:
                out.append(Out(RET, s, none(I, c.rty)))
                continue
            for s2, r2 in I.cmp(s, 'Gt', v, ('i', hi)):
                out.append(Out(RET, s2, none(I, c.rty) if r2 else some(I, c.rty, v)))
        return out
    return f


for _n, _k in (('u8', ('u', 8)), ('u16', ('u', 16)), ('u32', ('u', 32)), ('u64', ('u', 64)), ('u128', ('u', 128)), ('usize', ('u', 64)),
               ('i8', ('i', 8)), ('i16', ('i', 16)), ('i32', ('i', 32)), ('i64', ('i', 64)), ('i128', ('i', 128)), ('isize', ('i', 64))):
    TABLE['ToPrimitive::to_' + _n] = to_int(_k)


@m('TryFrom::try_from', 'TryInto::try_into')
def _try(c):
    I = c.I
    okt = I.fields(c.rty, I.variant(c.rty, 'Ok'))[0]
    d = I.types[okt]
    v = I.nrm(c.st, c.D(0))
    if d['k'] == 'int' and v[0] in ('i', 'n'):
        lo, hi = I.rng(('i' if d['signed'] else 'u', d['bits']))
        out = []
        et = I.fields(c.rty, I.variant(c.rty, 'Err'))[0]
        for s, r in I.cmp(c.st, 'Lt', v, ('i', lo)):
            if r:
                out.append(Out(RET, s, err(I, c.rty, ('o', ('try-error', v), et))))
                continue
            for s2, r2 in I.cmp(s, 'Gt', v, ('i', hi)):
                out.append(Out(RET, s2, err(I, c.rty, ('o', ('try-error', v), et)) if r2 else ok(I, c.rty, v)))
        return out
    raise Giveup('conversion of %r' % (v,))


D10 = '0123456789'


def digits(radix):
    ds = '0123456789abcdefghijklmnopqrstuvwxyz'[:radix]
    return frozenset(ds) | frozenset(ds.upper())


def bigint_lang(radix, signs='+-', under=True):
    d = ('set', digits(radix))
    m_ = ('set', digits(radix) | {'_'}) if under else d
    return T.rx(('seq', [('alt', [('eps',), ('set', frozenset(signs))]), d, ('star', m_)]))


def dec_lang():
    d = ('set', frozenset(D10))
    ds = ('seq', [d, ('star', d)])
    sg = ('alt', [('eps',), ('set', frozenset('+-'))])
    return T.rx(('seq', [sg, ('alt', [ds, ('seq', [ds, ('sym', '.'), ('star', d)]), ('seq', [('sym', '.'), ds])]),
                         ('alt', [('eps',), ('seq', [('set', frozenset('eE')), sg, ds])])]))


def intval(I, st, t, radix):
    """value of a numeral"""
    w = litof(I.tnorm(st, t))
    if w is not None:
        return ('i', int(w.replace('_', ''), radix))
    return ('n', 0, ('intval', I.tnorm(st, t), radix), 'B')


@m('Num::from_str_radix', 'int::from_str_radix', 'BigInt::parse_bytes', 'FromStr::from_str', 'str::parse', 'BigUint::from_str_radix')
def _from_str(c):
    I, st = c.I, c.st
    if c.key == 'BigInt::parse_bytes':
        v, r = c.D(0), I.nrm(st, c.a[1])
        if r[0] != 'i' or v[0] not in ('seq', 'str'):
            raise Giveup('parsing %r' % (v,))
        if v[0] == 'seq':
            def chars(ps):
                return tuple(('e', ('ch', chr(p[1][1])) if p[1][0] == 'i' else p[1]) if p[0] == 'e' else ('m', p[1], tuple((cc, chars(q)) for cc, q in p[2])) for p in ps)
            v = mkstr(to_pieces(chars(v[1])))
        okt = I.fields(c.rty, I.variant(c.rty, 'Some'))[0]
        sg = '+-' if I.last(okt) == 'BigInt' else '+'
        return [Out(RET, s, some(I, c.rty, intval(I, s, v, r[1])) if y else none(I, c.rty)) for s, y in I.in_lang(st, v, bigint_lang(r[1], sg))]
    okt = I.fields(c.rty, I.variant(c.rty, 'Ok'))[0]
    et = I.fields(c.rty, I.variant(c.rty, 'Err'))[0]
    n = I.last(okt)
    t = c.D(0)
    if t[0] != 'str':
        raise Giveup('parsing %r' % (t,))
    radix = 10
    if 'radix' in c.key:
        r = I.nrm(st, c.a[1])
        if r[0] != 'i':
            raise Giveup('unknown radix')
        radix = r[1]
    if n in ('BigInt', 'BigUint'):
        L = bigint_lang(radix, '+-' if n == 'BigInt' else '+')
        mk = lambda s: intval(I, s, t, radix)
    elif n == 'BigDecimal':
        if radix != 10:
            return panic(st, 'BigDecimal is parsed with a radix other than 10')
        L = dec_lang()
        mk = lambda s: ('o', ('decval', I.tnorm(s, t)), okt)
    elif I.types[okt]['k'] == 'int':
        L = bigint_lang(radix, '+-' if I.types[okt]['signed'] else '+', False)
        out = []
        for s, r in I.in_lang(st, t, L):
            if not r:
                out.append(Out(RET, s, err(I, c.rty, ('o', ('parse-error', t), et))))
                continue
            lo, hi = I.rng(('i' if I.types[okt]['signed'] else 'u', I.types[okt]['bits']))
            v = intval(I, s, t, radix)
            for s2, x in I.cmp(s, 'Gt', v, ('i', hi)):
                if x:
                    out.append(Out(RET, s2, err(I, c.rty, ('o', ('parse-error', t), et))))
                    continue
                for s3, y in I.cmp(s2, 'Lt', v, ('i', lo)):
                    out.append(Out(RET, s3, err(I, c.rty, ('o', ('parse-error', t), et)) if y else ok(I, c.rty, v)))
        return out
    elif n == 'String':
        return ret(st, ok(I, c.rty, t))
    else:
        f = [i for i, b in I.P.bodies.items() if b['name'].endswith('::from_str') and b['body']['locals'][0] == c.rty]
        if f:
            return I.call(f[0], [vref(t)], st, c.span, c.rty)
        raise Giveup('parsing %s' % I.tname(okt))
    out = []
    for s, r in I.in_lang(st, t, L):
        out.append(Out(RET, s, ok(I, c.rty, mk(s)) if r else err(I, c.rty, ('o', ('parse-error', t), et))))
    return out


@m('int::pow')
def _ipow(c):
    a, b = c.I.nrm(c.st, c.a[0]), c.I.nrm(c.st, c.a[1])
    if a[0] == 'i' and b[0] == 'i':
        return ret(c.st, ('i', a[1] ** b[1]))
    raise Giveup('pow')


@m('int::wrapping_add', 'int::saturating_add', 'int::checked_add', 'int::checked_sub', 'int::saturating_sub')
def _isat(c):
    I = c.I
    op = 'Add' if 'add' in c.key else 'Sub'
    out = []
    t = c.rty if c.key[5] != 'c' else I.fields(c.rty, I.variant(c.rty, 'Some'))[0]
    d = I.types[t]
    lo, hi = I.rng(('i' if d['signed'] else 'u', d['bits']))
    for s, v in I.binop(c.st, op, c.a[0], c.a[1], t, True):
        for s2, o in I.truth(s, v[1][1]):
            if not o:
                out.append(Out(RET, s2, some(I, c.rty, v[1][0]) if 'checked' in c.key else v[1][0]))
            elif 'checked' in c.key:
                out.append(Out(RET, s2, none(I, c.rty)))
            elif 'saturating' in c.key and not d['signed']:
                out.append(Out(RET, s2, ('i', hi if op == 'Add' else lo)))
            elif 'saturating' in c.key:
                raise Giveup(c.key)
            else:
                r = v[1][0]
                out.append(Out(RET, s2, ('i', (r[1] - lo) % (hi - lo + 1) + lo) if r[0] == 'i' else ('n', 0, ('wrap', r), ('u', d['bits']))))
    return out


# ------------------------------------------------------------ text
def text_len(I, st, v):
    v = I.tnorm(st, v)
    n, atoms = 0, []
    for p in v[1]:
        if isinstance(p, str):
            n += len(p.encode())
        elif p[0] == 'cv':
            s = I.cset(st, p[1])
            if all(T.ascii1(a) for a in s):
                n += 1
            else:
                atoms.append(p)
        else:
            atoms.append(p)
    if not atoms:
        return ('i', n)
    if len(atoms) == 1 and atoms[0][0] == 't':
        nm = ('bytes', atoms[0][1])
        L = I.tlang(st, atoms[0][1])
        key_ = ('iv', nm)
        lo = T.minlen(L)
        ws = T.words(L, 64)
        hi = max(len(w.encode()) for w in ws) if ws else (1 << 63) - 1
        if ws:
            lo = min(len(w.encode()) for w in ws)
        old = st.facts.get(key_)
        if old is None or (old[0] or 0) < lo or old[1] is None or old[1] > hi:
            o0, o1, ox = old or (0, None, frozenset())
            st.facts[key_] = (max(o0 or 0, lo), hi if o1 is None else min(o1, hi), ox)
        return I.nrm(st, ('n', n, nm, 'len'))
    nm = ('bytes', ('str', tuple(atoms)))
    return ('n', n, nm, 'len')


@m('str::len', 'String::len')
def _slen(c):
    return ret(c.st, text_len(c.I, c.st, c.D(0)))


@m('str::is_empty', 'String::is_empty')
def _sempty(c):
    return boolean(c.I.in_lang(c.st, c.D(0), T.lit('')))


@m('String::new', 'String::with_capacity')
def _snew(c):
    return ret(c.st, S(''))


@m('String::push_str', 'String::push', 'String::insert', 'String::insert_str')
def _spush(c):
    x = c.I.D(c.st, c.a[-1])
    ps = x[1] if x[0] == 'str' else (x,)
    if 'insert' in c.key:
        if c.I.nrm(c.st, c.a[1]) != ('i', 0):
            raise Giveup('insertion into a text')
        return ret(upd(c, lambda y: mkstr(tuple(ps) + y[1])), UNIT)
    return ret(upd(c, lambda y: mkstr(y[1] + tuple(ps))), UNIT)


@m('String::pop')
def _spop(c):
    I = c.I
    cell, path, x = resolve(I, c.st, c.a[0])
    x = I.tnorm(c.st, x)
    if not x[1]:
        return ret(c.st, none(I, c.rty))
    if isinstance(x[1][-1], str):
        st = c.st.copy()
        I.write(st, cell, path, mkstr(x[1][:-1] + (x[1][-1][:-1],)))
        return ret(st, some(I, c.rty, ('ch', x[1][-1][-1])))
    raise Giveup('pop from an unknown text')


def char_parts(I, st, v):
    """[(state, parts)]: the characters of a text"""
    v = I.tnorm(st, v)
    states = [(st, ())]
    for p in v[1]:
        nxt = []
        for s, ps in states:
            if isinstance(p, str):
                nxt.append((s, ps + tuple(('e', ('ch', c)) for c in p)))
            elif p[0] in ('cv', 'ch'):
                nxt.append((s, ps + (('e', p),)))
            elif p[0] == 't':
                L = I.tlang(s, p[1])
                cp = T.char_paths(L)
                if cp is None:
                    cp = ((('seg', tuple(sorted(T.alphabet(L))), False),),)
                for n, path in enumerate(cp):
                    s2 = s
                    if len(cp) > 1:
                        k = ('path', p[1], L)
                        if s.facts.get(k, n) != n:
                            continue
                        s2 = s.copy()
                        s2.facts[k] = n
                        pl = T.lit('')
                        for it in path:
                            pl = T.concat(pl, T.rx(('set', it[1])) if it[0] == 'e' else T.seg(frozenset(it[1]), it[2]))
                        s2 = I.with_lang(s2, p[1], T.inter(L, pl))
                        if s2 is None:
                            continue
                    q = []
                    for i, it in enumerate(path):
                        if it[0] == 'e':
                            q.append(('e', I.nrm(s2, ('cv', ('chr', p[1], (L, n, i), tuple(sorted(it[1])))))))
                        else:
                            q.append(I.ident(('cseg', p[1], (L, n, i), tuple(it[1]), it[2])))
                    nxt.append((s2, ps + tuple(q)))
            elif p[0] == 'tm':
                def conv(qs):
                    out = []
                    for x in qs:
                        if isinstance(x, str):
                            out += [('e', ('ch', c)) for c in x]
                        elif x[0] in ('cv', 'ch'):
                            out.append(('e', x))
                        else:
                            raise Giveup('characters of %r' % (x,))
                    return tuple(out)
                nxt.append((s, ps + (('m', p[1], tuple((cc, conv(q)) for cc, q in p[2])),)))
            else:
                raise Giveup('characters of %r' % (p,))
        states = nxt
    return states


@m('str::chars')
def _chars(c):
    return [Out(RET, s, ('it', ps)) for s, ps in char_parts(c.I, c.st, c.D(0))]


@m('str::char_indices')
def _charix(c):
    I, out = c.I, []
    for s, ps in char_parts(I, c.st, c.D(0)):
        q, at = [], 0
        for i, p in enumerate(ps):
            if p[0] != 'e':
                q += mapparts((p,), lambda x: ('tup', (('n', 0, ('charoff', p, x), 'len'), x)))
                at = None
                continue
            q.append(('e', ('tup', (('i', at) if at is not None else ('n', 0, ('charoff', i, ps), 'len'), p[1]))))
            if at is not None:
                x = p[1]
                n = len(x[1].encode()) if x[0] == 'ch' else 1 if all(T.ascii1(a) for a in I.cset(s, x[1])) else None
                at = None if n is None else at + n
        out.append(Out(RET, s, ('it', tuple(q))))
    return out


@m('str::bytes', 'str::as_bytes', 'String::as_bytes', 'String::into_bytes')
def _bytes(c):
    I = c.I
    out = []
    v = c.D(0)
    def byte(s, x):
        if x[0] == 'ch' and ord(x[1]) < 128:
            return ('i', ord(x[1]))
        if x[0] == 'cv' and all(T.ascii1(a) for a in I.cset(s, x[1])):
            return x
        return None
    for s, ps in char_parts(I, c.st, v):
        ok_ = True
        q = []
        for p in ps:
            if p[0] == 'e':
                x = byte(s, p[1])
                ok_ = ok_ and x is not None
                q.append(('e', x))
                continue
            br = []
            for cc, items in p[2]:
                s2 = with_facts(I, s, cc)
                xs = tuple(('e', byte(s2, y[1]) if s2 is not None else y[1]) for y in items)
                ok_ = ok_ and all(y[1] is not None for y in xs)
                br.append((cc, xs))
            q.append(('m', p[1], tuple(br)))
        if not ok_:
            q = [('m', ('v', ('bytes-of', v), None), ((frozenset(), (('e', ('o', ('el', ('v', ('bytes-of', v), None)), None)),)),))]
        val = ('seq', tuple(q))
        out.append(Out(RET, s, ('it', tuple(q)) if c.key == 'str::bytes' else val if c.key == 'String::into_bytes' else vref(val)))
    return out


def concat_path(it):
    return it


@m('str::get')
def _strget(c):
    I = c.I
    out = []
    for o in str_range(I, c.st, c.D(0), c.D(1)):
        if o.kind == PANIC and 'may' in str(o.val):
            raise Giveup('a part of a text that may begin inside a character')
        out.append(Out(RET, o.st, some(I, c.rty, o.val) if o.kind == RET else none(I, c.rty)) if o.kind in (RET, PANIC) else o)
    return out


def str_range(I, st, v, r):
    """text[range] with byte offsets"""
    a, b, inc = range_bounds(I, st, r)
    v = I.tnorm(st, v)
    w = litof(v)
    a = I.nrm(st, a)
    L = text_len(I, st, v)
    if b is None:
        b = L
    else:
        b = I.nrm(st, b)
        if inc:
            b = ('i', b[1] + 1) if b[0] == 'i' else ('n', b[1] + 1, b[2], b[3])
    if w is not None and a[0] == 'i' and b[0] == 'i':
        by = w.encode()
        try:
            if a[1] > b[1] or b[1] > len(by):
                raise ValueError
            return ret(st, vref(S(by[a[1]:b[1]].decode())))
        except ValueError:
            return panic(st, 'text index out of bounds or inside a character')
    if a[0] != 'i':
        raise Giveup('text range %r' % (r,))
    if b[0] == 'i' and L[0] == 'n':
        # text[a..k]: the first k characters
        return front(I, st, v, a[1], b[1])
    if L[0] != b[0] or b[2] != L[2]:
        raise Giveup('text range %r of %r' % (r, v))
    back = L[1] - b[1]
    if back < 0:
        return panic(st, 'text index out of bounds')
    out = []
    n = ('i', a[1] + back)
    for s, x in I.cmp(st, 'Ge', L, n):
        if not x:
            out += panic(s, 'text index out of bounds')
            continue
        q = cut_front(I, s, v, a[1])
        q = cut_back(I, s, q, back) if q is not None else None
        if q is None:
            out += panic(s, 'text index may fall inside a character')
        else:
            out.append(Out(RET, s, vref(q)))
    return out


def front(I, st, v, a, k):
    """v[a..k] for constants"""
    head, rest = '', list(v[1])
    out = []
    for s, ps in char_parts(I, st, v):
        q = []
        for p in ps:
            if len(q) == k:
                break
            if p[0] != 'e' or not (p[1][0] == 'ch' and ord(p[1][1]) < 128 or p[1][0] == 'cv' and all(T.ascii1(x) for x in I.cset(s, p[1][1]))):
                raise Giveup('front of a text')
            q.append(p[1])
        if len(q) < k:
            out += panic(s, 'text index out of bounds')
        else:
            out.append(Out(RET, s, vref(mkstr(tuple(q[a:])))))
    return out


def sub_name(n, a, b):
    if isinstance(n, tuple) and n[0] == 'sub':
        return ('sub', n[1], n[2] + a, n[3] + b)
    return ('sub', n, a, b)


def cut_front(I, st, v, k):
    ps = list(v[1])
    while k:
        if not ps:
            return None
        p = ps[0]
        if isinstance(p, str):
            by = p.encode()
            if len(by) <= k:
                k -= len(by)
                ps.pop(0)
                continue
            try:
                ps[0] = by[k:].decode()
                by[:k].decode()
            except ValueError:
                return None
            k = 0
        elif p[0] == 'cv':
            if not all(T.ascii1(a) for a in I.cset(st, p[1])):
                return None
            ps.pop(0)
            k -= 1
        elif p[0] == 't':
            r = T.drop_front(I.tlang(st, p[1]), k)
            if r is None or not r[1]:
                return None
            ps[0] = ('t', sub_name(p[1], k, 0))
            k = 0
        else:
            return None
    return mkstr(ps)


def cut_back(I, st, v, k):
    ps = list(v[1])
    while k:
        if not ps:
            return None
        p = ps[-1]
        if isinstance(p, str):
            by = p.encode()
            if len(by) <= k:
                k -= len(by)
                ps.pop()
                continue
            try:
                ps[-1] = by[:-k].decode()
            except ValueError:
                return None
            k = 0
        elif p[0] == 'cv':
            if not all(T.ascii1(a) for a in I.cset(st, p[1])):
                return None
            ps.pop()
            k -= 1
        elif p[0] == 't':
            r = T.drop_back(I.tlang(st, p[1]), k)
            if r is None or not r[1]:
                return None
            ps[-1] = ('t', sub_name(p[1], 0, k))
            k = 0
        else:
            return None
    return mkstr(ps)


def pattern(I, st, v):
    """a constant text pattern as list of alternatives, or None"""
    v = I.D(st, v)
    v = I.nrm(st, v) if v[0] == 'cv' else v
    if v[0] == 'ch':
        return [v[1]]
    if v[0] == 'str':
        w = litof(I.tnorm(st, v))
        return None if w is None else [w]
    if v[0] == 'seq':
        out = []
        for p in v[1]:
            if p[0] != 'e' or p[1][0] != 'ch':
                return None
            out.append(p[1][1])
        return out
    return None


def alt(ws):
    return ('alt', [('seq', [('sym', T.symof(c)) for c in w]) for w in ws])


@m('str::starts_with', 'str::ends_with', 'str::contains')
def _starts(c):
    I, st = c.I, c.st
    v = c.D(0)
    ws = pattern(I, st, c.a[1])
    f = I.D(st, c.a[1])
    sig = ('star', ('set', T.sigma()))
    if ws is None and f[0] in ('clo', 'fn'):
        raise Giveup('text search with a closure')
    if ws is None:
        return boolean(I.truth(st, ('b', (c.key, I.tnorm(st, v), deepD(I, st, c.a[1])))))
    e = {'str::starts_with': [alt(ws), sig], 'str::ends_with': [sig, alt(ws)], 'str::contains': [sig, alt(ws), sig]}[c.key]
    return boolean(I.in_lang(st, v, T.rx(('seq', e))))


@m('str::strip_prefix', 'str::strip_suffix')
def _strip(c):
    I, st = c.I, c.st
    v = c.D(0)
    ws = pattern(I, st, c.a[1])
    if ws is None or len(ws) != 1:
        raise Giveup('strip of an unknown text')
    sig = ('star', ('set', T.sigma()))
    pre = c.key.endswith('prefix')
    out = []
    for s, r in I.in_lang(st, v, T.rx(('seq', [alt(ws), sig] if pre else [sig, alt(ws)]))):
        if not r:
            out.append(Out(RET, s, none(I, c.rty)))
            continue
        n = len(ws[0].encode())
        q = cut_front(I, s, I.tnorm(s, v), n) if pre else cut_back(I, s, I.tnorm(s, v), n)
        if q is None:
            raise Giveup('strip of a text')
        out.append(Out(RET, s, some(I, c.rty, vref(q))))
    return out


@m('str::split_at')
def _split_at(c):
    I = c.I
    k = I.nrm(c.st, c.a[1])
    if k[0] != 'i':
        L = text_len(I, c.st, I.tnorm(c.st, c.D(0)))
        if L[0] != 'n' or L[2] != k[2] or L[1] < k[1]:
            raise Giveup('split_at a computed place')
        out = []
        for s, fits in I.cmp(c.st, 'Ge', L, ('i', L[1] - k[1])):
            if not fits:
                out += panic(s, 'split_at beyond the end')
                continue
            v = I.tnorm(s, c.D(0))
            head = cut_back(I, s, v, L[1] - k[1])
            if head is None:
                out += panic(s, 'split_at may fall inside a character')
                continue
            # the rest: not followed further
            out.append(Out(RET, s, ('tup', (vref(head), vref(('str', (('t', ('ap', 'end', (v, ('i', L[1] - k[1])))),)))))))
        return out
    out = []
    for s, ps in char_parts(I, c.st, c.D(0)):
        n, b = 0, 0
        while b < k[1]:
            p = ps[n] if n < len(ps) else None
            if p is None:
                out += panic(s, 'split_at beyond the end')
                break
            if p[0] != 'e':
                raise Giveup('split_at inside a repetition')
            x = p[1]
            if x[0] == 'ch':
                b += len(x[1].encode())
            elif all(T.ascii1(a) for a in I.cset(s, x[1])):
                b += 1
            else:
                raise Giveup('split_at after characters of unknown width')
            n += 1
        else:
            if b > k[1]:
                out += panic(s, 'split_at inside a character')
                continue
            rest = cut_front(I, s, I.tnorm(s, c.D(0)), k[1])
            out.append(Out(RET, s, ('tup', (vref(mkstr(to_pieces(ps[:n]))), vref(mkstr(to_pieces(ps[n:])) if rest is None else rest)))))
    return out


@m('str::trim', 'str::trim_start', 'str::trim_end', 'str::replace', 'str::to_uppercase', 'str::to_lowercase', 'str::repeat', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase',
   'str::trim_matches', 'str::trim_start_matches', 'str::trim_end_matches')
def _texts(c):
    I, st = c.I, c.st
    v = I.tnorm(st, c.D(0))
    w = litof(v)
    args = [deepD(I, st, a) for a in c.a[1:]]
    lits = [litof(a) if a[0] == 'str' else a[1] if a[0] in ('ch', 'i') else None for a in args]
    r = None
    if w is not None and None not in lits:
        k = c.key[5:]
        r = {'trim': lambda: w.strip(), 'trim_start': lambda: w.lstrip(), 'trim_end': lambda: w.rstrip(), 'replace': lambda: w.replace(lits[0], lits[1]),
             'to_uppercase': lambda: w.upper(), 'to_lowercase': lambda: w.lower(), 'repeat': lambda: w * lits[0], 'to_ascii_lowercase': lambda: w.lower() if w.isascii() else None,
             'to_ascii_uppercase': lambda: w.upper() if w.isascii() else None}.get(k, lambda: None)()
    if r is None and c.key == 'str::replace' and len(lits) == 2 and lits[0] \
            and T.empty(T.inter(I.text_lang(st, v), T.rx(('seq', [('star', ('set', T.sigma())), alt([lits[0]]), ('star', ('set', T.sigma()))])))):
        return ret(st, v)
    if r is None and c.key == 'str::replace' and len(v[1]) == 1 and v[1][0][0] == 't' and lits == ['_', '']:
        L = T.rx_erase(I.tlang(st, v[1][0][1]), '_')
        nm = ('erase', v[1][0][1], '_')
        st = st.copy()
        st.facts[('L', nm)] = L
        return ret(st, ('str', (('t', nm),)))
    if r is None and c.key in ('str::trim_start_matches', 'str::trim_end_matches') and len(lits) == 1 and lits[0] and len(lits[0]) == 1 and lits[0].isascii():
        # at most a few occurrences can be there: one case each
        sig, x, front = ('star', ('set', T.sigma())), ('sym', T.symof(lits[0])), c.key == 'str::trim_start_matches'
        non = ('alt', [('eps',), ('seq', [('set', T.sigma() - {T.symof(lits[0])}), sig] if front else [sig, ('set', T.sigma() - {T.symof(lits[0])})])])
        L = I.text_lang(st, v)
        if T.empty(T.inter(L, T.rx(('seq', [x] * 4 + [sig] if front else [sig] + [x] * 4)))):
            out = []
            for k in range(4):
                for s, y in I.in_lang(st, v, T.rx(('seq', [x] * k + [non] if front else [non] + [x] * k))):
                    if y:
                        q = (cut_front if front else cut_back)(I, s, I.tnorm(s, v), k)
                        if q is None:
                            raise Giveup(c.key)
                        out.append(Out(RET, s, vref(q)))
            return out
    if r is None and c.key == 'str::trim_start_matches':
        f = I.D(st, c.a[1])
        if f[0] == 'cv':
            # one case for each character it can be
            out = []
            for a in I.cset(st, f[1]):
                s = I.with_set(st, f[1], frozenset([a]))
                if s is not None:
                    if I.nrm(s, f)[0] != 'ch':
                        raise Giveup('a pattern that can be many characters')
                    out += _texts(Call(I, c.F, c.a, c.rty, s, c.span, c.key))
            return out
        if f[0] in ('ch', 'clo', 'fn') or f[0] == 'seq' and pattern(I, st, c.a[1]):
            if f[0] in ('clo', 'fn'):
                test = tester(c, c.a[1], False)
            else:
                cs = pattern(I, st, c.a[1])

                def test(s, x):
                    if x[0] == 'ch':
                        return [(Out(RET, s, None), x[1] in cs)]
                    res, inn = [], frozenset(T.symof(y) for y in cs)
                    for keep in (True, False):
                        s2 = I.with_set(s, x[1], frozenset(a for a in I.cset(s, x[1]) if (a in inn) == keep))
                        if s2 is not None:
                            res.append((Out(RET, s2, None), keep))
                    return res
            out = []
            for s, ps in char_parts(I, st, v):
                for x in span_while(I, s, ps, test):
                    if len(x) == 1:
                        out.append(x[0])
                        continue
                    for o in text_of_parts(I, x[0], x[2], ('str', ())):
                        if o.kind == RET:
                            o.val = vref(o.val)
                        out.append(o)
            return out
    if r is None:
        v = ('str', (('t', ('ap', c.key, (v,) + tuple(args))),))
    else:
        v = S(r)
    return ret(st, v if I.types[c.rty]['k'] == 'adt' else vref(v))


@m('str::split', 'str::rsplit', 'str::splitn', 'str::split_whitespace', 'str::lines', 'str::rsplitn')
def _split(c):
    I, st = c.I, c.st
    v = I.tnorm(st, c.D(0))
    w = litof(v)
    ws = pattern(I, st, c.a[-1]) if len(c.a) > 1 else None
    if w is not None and ws is not None and len(ws) == 1 and c.key in ('str::split', 'str::rsplit'):
        ps = w.split(ws[0])
        if c.key == 'str::rsplit':
            ps.reverse()
        return ret(st, ('it', tuple(('e', vref(S(x))) for x in ps)))
    if ws is None or len(ws) != 1 or c.key not in ('str::split', 'str::rsplit'):
        raise Giveup('splitting a text')
    # no separator inside: one element
    sig = ('star', ('set', T.sigma()))
    head = ()
    if v[1] and isinstance(v[1][0], str) and ws[0] in v[1][0]:
        # the separators in the text it begins with
        hs = v[1][0].split(ws[0])
        head = tuple(('e', vref(S(x))) for x in hs[:-1])
        v = mkstr(((hs[-1],) if hs[-1] else ()) + v[1][1:])
    L = I.text_lang(st, v)
    if T.empty(T.inter(L, T.rx(('seq', [sig, alt(ws), sig])))):
        ps = head + (('e', vref(v)),)
    else:
        ps = head + wrap((I.ident(('split', v, ws[0])),))
    return ret(st, ('it', ps if c.key == 'str::split' else I.reverse(ps)))


@m('str::split_once', 'str::rsplit_once')
def _split_once(c):
    I, st = c.I, c.st
    v = I.tnorm(st, c.D(0))
    w = litof(v)
    ws = pattern(I, st, c.a[1])
    if w is not None and ws and len(ws) == 1:
        if ws[0] not in w:
            return ret(st, none(I, c.rty))
        a, _, b = w.partition(ws[0]) if c.key == 'str::split_once' else w.rpartition(ws[0])
        return ret(st, some(I, c.rty, ('tup', (vref(S(a)), vref(S(b))))))
    raise Giveup('splitting a text')


@m('str::eq_ignore_ascii_case')
def _eqic(c):
    I, st = c.I, c.st
    w = litof(I.tnorm(st, c.D(1)))
    v = c.D(0)
    if w is None:
        w, v = litof(I.tnorm(st, c.D(0))), c.D(1)
    if w is None:
        raise Giveup('comparison of texts')
    L = T.rx(('seq', [('set', frozenset({T.symof(x), T.symof(x.lower()), T.symof(x.upper())})) if x.isascii() else ('sym', T.symof(x)) for x in w]))
    return boolean(I.in_lang(st, v, L))


def ascii_pred(f):
    return lambda a: f(a) if len(a) == 1 and ord(a) < 128 else False


CHARP = {
    'is_ascii_digit': ascii_pred(str.isdigit), 'is_ascii_alphabetic': ascii_pred(str.isalpha), 'is_ascii_alphanumeric': ascii_pred(str.isalnum),
    'is_ascii_hexdigit': ascii_pred(lambda a: a in '0123456789abcdefABCDEF'), 'is_ascii_uppercase': ascii_pred(str.isupper),
    'is_ascii_lowercase': ascii_pred(str.islower), 'is_ascii_whitespace': ascii_pred(lambda a: a in ' \t\n\r\x0c'),
    'is_ascii_punctuation': ascii_pred(lambda a: a in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'), 'is_ascii': lambda a: len(a) == 1 and ord(a) < 128,
    'is_numeric': lambda a: (a.isdigit() if len(a) == 1 and ord(a) < 128 else None),
    'is_alphabetic': lambda a: (a.isalpha() if len(a) == 1 and ord(a) < 128 else True if a == '<S>' else None),
    'is_alphanumeric': lambda a: (a.isalnum() if len(a) == 1 and ord(a) < 128 else True if a == '<S>' else None),
    'is_whitespace': lambda a: (a.isspace() if len(a) == 1 else a == '<W>'),
}


@m(*['char::' + k for k in CHARP])
def _chp(c):
    v = c.D(0)
    return boolean(c.I.char_is(c.st, v, CHARP[c.key[6:]]))


@m('char::is_digit', 'char::to_digit')
def _isdig(c):
    I = c.I
    r = I.nrm(c.st, c.a[1])
    if r[0] != 'i':
        raise Giveup('radix')
    ds = digits(r[1])
    v = c.D(0)
    out = []
    for s, b in I.char_is(c.st, v, lambda a: a in ds):
        if c.key == 'char::is_digit':
            out.append(Out(RET, s, ('i', int(b))))
        elif not b:
            out.append(Out(RET, s, none(I, c.rty)))
        else:
            x = I.nrm(s, v)
            out.append(Out(RET, s, some(I, c.rty, ('i', int(x[1], 36)) if x[0] == 'ch' else ('n', 0, ('digit', x), ('u', 32)))))
    return out


@m('char::to_ascii_lowercase', 'char::to_ascii_uppercase', 'int::to_ascii_lowercase', 'int::to_ascii_uppercase')
def _chl(c):
    I = c.I
    f = str.lower if 'lower' in c.key else str.upper
    v = I.nrm(c.st, c.D(0))
    byte = c.key.startswith('int')
    if byte and v[0] == 'i':
        return ret(c.st, ('i', ord(f(chr(v[1]))) if v[1] < 128 else v[1]))
    if v[0] not in ('ch', 'cv'):
        raise Giveup(c.key)
    if v[0] == 'ch':
        return ret(c.st, ('ch', f(v[1]) if ord(v[1]) < 128 else v[1]))
    by = {}
    for a in I.cset(c.st, v[1]):
        by.setdefault(f(a) if len(a) == 1 and ord(a) < 128 else None, set()).add(a)
    out = []
    for w, s in by.items():
        st = I.with_set(c.st, v[1], s)
        if st is not None:
            out.append(Out(RET, st, v if w is None else ('i', ord(w)) if byte else ('ch', w)))
    return out


# ------------------------------------------------------------ formatting
def template(bs):
    """[('lit', text) | ('arg', index or None, has options)]"""
    out, i, nxt = [], 0, 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            return out
        if b < 0x80:
            out.append(('lit', bytes(bs[i + 1:i + 1 + b]).decode()))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(('lit', bytes(bs[i + 3:i + 3 + n]).decode()))
            i += 3 + n
        elif b & 0xC0 == 0xC0:
            i += 1
            opt = []
            for bit, n in ((1, 4), (2, 2), (4, 2)):
                if b & bit:
                    opt.append((bit, int.from_bytes(bytes(bs[i:i + n]), 'little')))
                    i += n
            ix = nxt
            if b & 8:
                ix = int.from_bytes(bytes(bs[i:i + 2]), 'little')
                i += 2
            nxt = ix + 1
            if b & 0x30:
                opt.append(('indirect',))
            out.append(('arg', ix, tuple(opt)))
        else:
            raise Giveup('format template')
    raise Giveup('format template')


@m('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def _newarg(c):
    return ret(c.st, ('fmtarg', c.key.split('_', 1)[1], c.a[0], c.targ(0) if c.targ(0) is not None else None))


@m('Arguments::from_str', 'Arguments::new_const')
def _afs(c):
    return ret(c.st, c.D(0))


@m('Arguments::new')
def _anew(c):
    I = c.I
    t = c.D(0)
    if t[0] != 'seq' or not all(p[0] == 'e' and p[1][0] == 'i' for p in t[1]):
        raise Giveup('format template %r' % (t,))
    args = c.D(1)
    if args[0] != 'seq' or not all(p[0] == 'e' for p in args[1]):
        raise Giveup('format arguments')
    states = [(c.st, ())]
    bad = []
    for it in template([p[1][1] for p in t[1]]):
        nxt = []
        for s, ps in states:
            if it[0] == 'lit':
                nxt.append((s, ps + (it[1],)))
                continue
            a = args[1][it[1]][1]
            if a[1] != 'display' or it[2]:
                v = I.D(s, a[2])
                nxt.append((s, ps + (('fmt', a[1], it[2], v),)))
                continue
            for s2, r in display(I, s, a[2], bad):
                nxt.append((s2, ps + r[1]))
        states = nxt
    return bad + [Out(RET, s, mkstr(ps)) for s, ps in states]


def display(I, st, v, bad=None):
    """[(state, text)] of the Display output"""
    v = I.D(st, v)
    v = I.nrm(st, v)
    k = v[0]
    if k == 'str':
        return [(st, v)]
    if k in ('ch', 'cv'):
        return [(st, mkstr((v,)))]
    if k == 'i':
        return [(st, S(str(v[1])))]
    if k == 'n':
        return [(st, ('str', (('dec', v),)))]
    if k == 'b':
        return [(s, S('true' if r else 'false')) for s, r in I.truth(st, v)]
    t = v[1] if k == 'adt' else v[2] if k == 'o' else None
    f = I.displays.get(t)
    if f is None:
        return [(st, ('str', (('disp', v),)))]
    s = st.copy()
    h = I.heap(s, S(''))
    out = []
    for o in I.call(f, [vref(v), ('ref', h, ())], s, None, I.P.bodies[f]['body']['locals'][0]):
        if o.kind == RET:
            o.st = o.st.copy()
            x = o.st.cells.pop(h)
            r = [(o.st, o.val)] if o.val[0] == 'adt' else I.expand(o.st, o.val)
            for s2, y in r:
                if I.types[y[1]]['variants'][y[2]]['name'] == 'Ok':
                    out.append((s2, x))
                elif bad is not None:
                    bad.append(Out(PANIC, s2, 'a Display implementation returned an error'))
        elif bad is not None:
            bad.append(o)
        else:
            raise Giveup('panic inside Display: %s' % (o.val,))
    return out


def write_text(I, st, f, ps):
    cell, path, x = resolve(I, st, f)
    if x[0] != 'str':
        raise Giveup('writing to %r' % (x,))
    I.write(st, cell, path, mkstr(x[1] + tuple(ps)))


@m('Formatter::write_fmt', 'Formatter::write_str', 'Write::write_fmt', 'Write::write_str', 'Write::write_char', 'Formatter::write_char', 'Formatter::pad')
def _wfmt(c):
    I = c.I
    st = c.st.copy()
    x = I.D(st, c.a[1])
    write_text(I, st, c.a[0], x[1] if x[0] == 'str' else (x,))
    return ret(st, ok(I, c.rty, UNIT))


@m('fmt::format', 'string::format')
def _format(c):
    v = c.D(0)
    return ret(c.st, v)


@m('ToString::to_string', 'SpecToString::spec_to_string')
def _tostr(c):
    bad = []
    r = display(c.I, c.st, c.a[0], bad)
    return bad + [Out(RET, s, v) for s, v in r]


@m('Display::fmt', 'Debug::fmt')
def _dfmt(c):
    I = c.I
    bad = []
    out = []
    if c.key == 'Debug::fmt':
        st = c.st.copy()
        write_text(I, st, c.a[1], (('fmt', 'debug', (), I.D(st, c.a[0])),))
        return ret(st, ok(I, c.rty, UNIT))
    for s, t in display(I, c.st, c.a[0], bad):
        s = s.copy()
        write_text(I, s, c.a[1], t[1])
        out.append(Out(RET, s, ok(I, c.rty, UNIT)))
    return bad + out


for _d in ('debug_struct_field1_finish', 'debug_struct_field2_finish', 'debug_struct_field3_finish', 'debug_struct_field4_finish', 'debug_struct_field5_finish',
           'debug_tuple_field1_finish', 'debug_tuple_field2_finish', 'debug_tuple_field3_finish', 'debug_struct_fields_finish', 'debug_tuple_fields_finish'):
    def _dbg(c):
        st = c.st.copy()
        write_text(c.I, st, c.a[0], (('fmt', 'debug', (), tuple(deepD(c.I, st, a) for a in c.a[1:])),))
        return ret(st, ok(c.I, c.rty, UNIT))
    TABLE['Formatter::' + _d] = _dbg


@m('Formatter::debug_tuple', 'Formatter::debug_struct')
def _dbgb(c):
    st = c.st.copy()
    write_text(c.I, st, c.a[0], (('fmt', 'debug', (), (deepD(c.I, st, c.a[1]),)),))
    cell, path, _ = resolve(c.I, st, c.a[0])
    return ret(st, ('builder', ('ref', cell, path)))


@m('DebugTuple::field', 'DebugStruct::field')
def _dbgf(c):
    st = c.st.copy()
    b = c.D(0)
    if b[0] != 'builder':
        raise Giveup('a field of %r' % (b,))
    write_text(c.I, st, b[1], (('fmt', 'debug', (), tuple(deepD(c.I, st, a) for a in c.a[1:])),))
    return ret(st, c.a[0])


@m('DebugTuple::finish', 'DebugStruct::finish')
def _dbge(c):
    if c.D(0)[0] != 'builder':
        raise Giveup('the end of %r' % (c.D(0),))
    return ret(c.st, ok(c.I, c.rty, UNIT))


# ------------------------------------------------------------ discriminants, files
@m('mem::discriminant', 'intrinsics::discriminant_value', 'DiscriminantKind::discriminant_value')
def _discv(c):
    I = c.I
    return [Out(RET, s, ('i', I.disc_of(a))) for s, a in I.expand(c.st, c.D(0))]


def effect(I, st, e):
    st = st.copy()
    st.facts[('io',)] = st.facts.get(('io',), ()) + (e,)
    return st


def io_result(I, st, rty, name, good):
    out = []
    for v in (True, False):
        s = st.copy()
        s.facts[('b', ('io-ok', name))] = v
        out.append(Out(RET, s, ok(I, rty, good) if v else err(I, rty, ('o', ('io-error', name), I.fields(rty, I.variant(rty, 'Err'))[0]))))
    return out


@m('fs::read_to_string')
def _read(c):
    p = deepD(c.I, c.st, c.a[0])
    return io_result(c.I, effect(c.I, c.st, ('read', p)), c.rty, ('read', p), ('str', (('t', ('file', p)),)))


@m('File::create')
def _create(c):
    p = deepD(c.I, c.st, c.a[0])
    return io_result(c.I, effect(c.I, c.st, ('create', p)), c.rty, ('create', p), ('o', ('handle', p), c.I.fields(c.rty, c.I.variant(c.rty, 'Ok'))[0]))


@m('File::open')
def _open(c):
    p = deepD(c.I, c.st, c.a[0])
    return io_result(c.I, effect(c.I, c.st, ('open', p)), c.rty, ('open', p), ('o', ('reader', p), c.I.fields(c.rty, c.I.variant(c.rty, 'Ok'))[0]))


@m('Read::read_to_string', 'io::read_to_string')
def _readts(c):
    I = c.I
    h = deepD(I, c.st, c.a[0])
    while h[0] == 'o' and h[1][0] == 'buffered':
        h = h[1][1]
    if h[0] != 'o' or h[1][0] != 'reader':
        raise Giveup('read from %r' % (h,))
    p = h[1][1]
    t = ('str', (('t', ('file', p)),))
    st = effect(I, c.st, ('read', p))
    if c.key.startswith('io::'):
        return io_result(I, st, c.rty, ('read', p), t)
    out = []
    for o in io_result(I, st, c.rty, ('read', p), I.opaque(('ap', 'len', (t,)), I.fields(c.rty, I.variant(c.rty, 'Ok'))[0])):
        s = o.st
        write_text(I, s, c.a[1], t[1])
        out.append(o)
    return out


@m('BufWriter::new', 'BufReader::new', 'LineWriter::new')
def _buf(c):
    return ret(c.st, ('o', ('buffered', deepD(c.I, c.st, c.a[0])), c.rty))


@m('File::options', 'OpenOptions::new')
def _opts(c):
    return ret(c.st, ('o', ('openoptions', frozenset()), c.rty))


@m('OpenOptions::read', 'OpenOptions::write', 'OpenOptions::append', 'OpenOptions::truncate', 'OpenOptions::create', 'OpenOptions::create_new')
def _opt(c):
    I, st = c.I, c.st
    cell, path, v = resolve(I, st, c.a[0])
    out = []
    for s, b in I.truth(st, c.D(1)):
        s = s.copy()
        f = c.key.split('::')[1]
        I.write(s, cell, path, (v[0], ('openoptions', v[1][1] | {f} if b else v[1][1] - {f}), v[2]))
        out.append(Out(RET, s, c.a[0]))
    return out


@m('OpenOptions::open')
def _openw(c):
    I = c.I
    f = deepD(I, c.st, c.a[0])[1][1]
    p = deepD(I, c.st, c.a[1])
    t = I.fields(c.rty, I.variant(c.rty, 'Ok'))[0]
    if f == {'read'}:
        return io_result(I, effect(I, c.st, ('open', p)), c.rty, ('open', p), ('o', ('reader', p), t))
    k = 'create' if f - {'read'} == {'write', 'create', 'truncate'} else 'open for ' + ', '.join(sorted(f))
    return io_result(I, effect(I, c.st, (k, p)), c.rty, (k, p), ('o', ('handle', p), t))


@m('Write::flush', 'File::sync_all', 'File::sync_data')
def _flush(c):
    I = c.I
    h = deepD(I, c.st, c.a[0])
    st = c.st.copy()
    while h[0] == 'o' and h[1][0] == 'buffered':
        h = h[1][1]
    if h[0] != 'o' or h[1][0] != 'handle':
        raise Giveup('flush of %r' % (h,))
    st.facts[('unflushed', h[1][1])] = False
    return io_result(I, effect(I, st, ('flush', h[1][1])), c.rty, ('flush', h[1][1]), UNIT)


@m('Write::write_all', 'Write::write', 'fs::write')
def _write(c):
    I = c.I
    h = deepD(I, c.st, c.a[0])
    d = deepD(I, c.st, c.a[1])
    if c.key == 'fs::write':
        return io_result(I, effect(I, effect(I, c.st, ('create', h)), ('write', h, d)), c.rty, ('write', h), UNIT)
    st = c.st
    if h[0] == 'o' and h[1][0] == 'buffered':
        h = h[1][1]
        st = st.copy()
        st.facts[('unflushed', h[1][1])] = True
    if h[0] == 'o' and h[1][0] == 'handle':
        if c.key == 'Write::write':
            n = I.opaque(('ap', 'written', (d,)), I.fields(c.rty, I.variant(c.rty, 'Ok'))[0])
            return io_result(I, effect(I, st, ('write a part', h[1][1], d)), c.rty, ('write', h[1][1]), n)
        return io_result(I, effect(I, st, ('write', h[1][1], d)), c.rty, ('write', h[1][1]), UNIT)
    raise Giveup('write to %r' % (h,))
