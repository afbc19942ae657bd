"""The evaluator and the session (properties C01-C06).

The evaluator's functions are interpreted from their MIR on symbolic trees;
every outcome must be the one the property prescribes for that tree."""
import flow, flowlib
import text as T
from flow import Giveup, Out, RET, PANIC, St, S, vref
from ast_specs import Ast
from ast_sem import Sem, brief
from ast_run import at, short

ATOMS = ('EmptyStatement', 'Boolean', 'Integer', 'Decimal', 'Symbol', 'String')
BIG = 1 << 62


class Ev:
    def __init__(self, progs, rep, cut=None):
        self.A = Ast(progs, rep)
        self.rep = rep
        self.hook = cut
        self.I = self.A.flow(self.cut)
        self.S = Sem(self.A, self.I)
        I = self.I
        self.AST, self.PAR, self.SYM = self.S.AST, self.S.PAR, self.S.SYM
        self.ERR = I.find_adt('SMError')
        self.F = I.variant(self.AST, 'Function')
        self.parsed = []

    def cut(self, I, inst, args, st, rty):
        b = I.P.bodies[inst]
        # the parser's contract: a tree or an error for this text
        if b['crate'] == 'sm_ast' and b['name'].endswith('ParserSettings>::parse') and b['body']['argc'] == 2:
            out = []
            t = I.tnorm(st, I.D(st, args[1]))
            for vn in ('Ok', 'Err'):
                vi = I.variant(rty, vn)
                v = I.opaque(('parse', t, I.D(st, args[0]), vn), I.fields(rty, vi)[0])
                out.append(Out(RET, st.copy(), ('adt', rty, vi, (v,))))
            return out
        return self.hook(self, inst, args, st, rty) if self.hook else None

    # ------------------------------------------------------------ inputs
    def fn(self, suffix, argc=None):
        return [i for i in self.A.find(suffix) if argc is None or self.A.P.bodies[i]['body']['argc'] == argc]

    def only(self, suffix, argc, what):
        fs = self.fn(suffix, argc)
        if not self.rep.need(len(fs) == 1, 'entry ' + what, '%s is found in the crate' % what):
            return None
        return fs[0]

    def ctx(self, st, ty):
        """a mutable reference to an arbitrary value"""
        while self.I.types[ty]['k'] in ('ref', 'ptr'):
            ty = self.I.types[ty]['el']
        v = self.I.opaque(('ctx',), ty)
        return ('ref', self.I.heap(st, v), ()), v

    def args(self, inst, st, given):
        """arguments by type: the given ones in order, anything else arbitrary"""
        b = self.A.P.bodies[inst]['body']
        given = list(given)
        out, cells = [], []
        for k in range(b['argc']):
            ty = b['locals'][k + 1]
            t = self.I.types[ty]
            if t['k'] == 'ref' and t.get('mut'):
                r, v = self.ctx(st, ty)
                out.append(r)
                cells.append((r[1], v))
            elif given:
                v = given.pop(0)
                out.append(vref(v) if t['k'] == 'ref' else v)
            else:
                out.append(self.I.opaque(('arg', k), ty))
        return out, cells

    def run(self, inst, given, st=None):
        """outcomes of a call; the values behind mutable references must not change"""
        st = st or St()
        args, cells = self.args(inst, st, given)
        outs = self.I.call_body(inst, args, st)
        for o in outs:
            for c, v in cells:
                if o.kind == RET and o.st.cells.get(c) != v:
                    raise Giveup('%s changes the state it is given' % self.A.P.bodies[inst]['name'])
        self.rep.funcs |= set(self.I.funcs)
        self.rep.paths += len(outs)
        return outs

    # ------------------------------------------------------------ values
    def ast(self, variant, *fs):
        return ('adt', self.AST, self.I.variant(self.AST, variant), tuple(fs))

    def int(self, name):
        return ('n', 0, name, 'B')

    def record(self, tid, **kv):
        fs = self.I.types[tid]['variants'][0]['fields']
        return ('adt', tid, 0, tuple(kv[f[0]] if f[0] in kv else self.I.opaque(('any', tid, f[0]), f[1]) for f in fs))

    def symbol(self, name):
        return self.record(self.SYM, name=name)

    def call(self, sym, *params):
        ps = tuple(('e', self.record(self.PAR, arguments=('seq', tuple(('e', a) for a in p)))) for p in params)
        return self.ast('Function', sym, ('seq', ps))

    def call_any(self, sym):
        return self.ast('Function', sym, ('seq', (('e', self.I.opaque(('p',), self.PAR)),)))

    def result(self, o):
        """('Ok', value) / ('Err', error)"""
        v = self.get(o.val, o.st)
        if v[0] != 'adt' or 'Result' not in self.I.types[v[1]]['adt']:
            raise Giveup('result %s' % brief(v))
        return self.I.types[v[1]]['variants'][v[2]]['name'], self.get(v[3][0], o.st)

    def get(self, v, st):
        return self.I.nrm(st, self.S.get(v, st))

    def vname(self, v):
        return self.I.types[v[1]]['variants'][v[2]]['name'] if v[0] == 'adt' else None

    def same(self, a, b, st):
        a, b = self.get(a, st), self.get(b, st)
        if a[0] == 'adt' and b[0] == 'o' and (a[1] == b[2] or b[2] is None):
            if len(self.I.types[a[1]]['variants']) == 1:
                b = self.I.expanded(b, 0)
        elif b[0] == 'adt' and a[0] == 'o':
            return self.same(b, a, st)
        if a[0] == 'adt' and b[0] == 'adt':
            return a[1:3] == b[1:3] and all(self.same(x, y, st) for x, y in zip(a[3], b[3]))
        if a[0] == 'str' and b[0] == 'str':
            return self.I.tnorm(st, a) == self.I.tnorm(st, b)
        if a[0] in 'in' and b[0] in 'in':
            return strip(a) == strip(b)
        return flowlib.deepD(self.I, st, a) == flowlib.deepD(self.I, st, b)


def strip(v):
    """a number without its width: conversions keep the value"""
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'n':
            return ('n', v[1], strip(v[2]))
        return tuple(strip(x) for x in v)
    return v


def guarded(rep, key, what, f):
    try:
        f()
    except Giveup as e:
        rep.bad('undecided ' + key, '%s cannot be interpreted: %s' % (what, str(e)[:300]))


# -------------------------------------------------------------------- C01
OPS = ('+', '*', '×', '^')


def operator_names(E):
    """{operator text: names of the function the parser builds}"""
    out = {}
    fs = [i for i in E.fn('::infix_map', 1)]
    for w in OPS:
        out[w] = set()
        for f in fs:
            for o in E.I.call_body(f, [S(w)], St()):
                if o.kind == RET:
                    out[w].add(E.S.adt(o.val, o.st, E.SYM, None, 'symbol')['name'])
    return out


def c01(progs, rep):
    E = Ev(progs, rep)
    I = E.I
    fw = E.only('::forward', 2, 'AST::forward')
    if fw is None:
        return
    a, b = E.int(('a',)), E.int(('b',))

    def ok_with(outs, want, key, what, allow_err=None):
        n = 0
        for o in outs:
            if o.kind != RET:
                continue                 # panics are the subject of C02
            k, v = E.result(o)
            if k == 'Err':
                if not (allow_err and allow_err(o.st)):
                    rep.bad(key, '%s is reported as an error' % what)
                continue
            n += 1
            rep.need(E.same(v, want(o.st), o.st), key, '%s is %s' % (what, show(v)))
        rep.need(n, key, '%s has a value' % what)

    # values stand for themselves
    for vn in ATOMS:
        vi = I.variant(E.AST, vn)
        v = I.expanded(('o', ('lit',), E.AST), vi)
        guarded(rep, 'literal ' + vn, 'AST::forward', lambda: ok_with(E.run(fw, [v]), lambda st: v, 'literal ' + vn, 'the value of a literal %s' % vn))
    s = I.opaque(('s',), E.SYM)
    v = E.ast('Function', s, ('seq', ()))
    guarded(rep, 'symbol', 'AST::forward', lambda: ok_with(E.run(fw, [v]), lambda st: E.ast('Symbol', s), 'symbol', 'the value of a name without argument lists'))

    names = operator_names(E)
    ops = {'+': ('add', lambda st: E.ast('Integer', flowlib.big(I, st, 'Add', a, b))),
           '*': ('times', lambda st: E.ast('Integer', flowlib.big(I, st, 'Mul', a, b))),
           '^': ('power', lambda st: E.ast('Integer', ('n', 0, ('pow', a, b), 'B')))}
    also = {'+': ['plus'], '*': ['times'], '^': ['power']}
    for w, (nm, want) in ops.items():
        rep.need(names[w], 'operator ' + w, 'the parser maps %s to a function' % w)
        for n in sorted(names[w] | {S(x) for x in also[w]}, key=repr):
            what = 'a %s b (function %s) on integers' % (w, flow.litof(n))
            st = E.call(E.symbol(n), [E.ast('Integer', a), E.ast('Integer', b)])

            def err(s):
                # only a power may fail, and only for exponents outside 0..2^64
                return w == '^' and (proves(I, s, 'Lt', b, ('i', 0)) or proves(I, s, 'Ge', b, ('i', 1 << 64)))
            guarded(rep, 'operator ' + w, 'AST::forward', lambda: ok_with(E.run(fw, [st]), want, 'operator ' + w, what, err))

            # with any other operands there is no value
            def others():
                args = ('seq', (I.ident(('v', ('args',), E.AST)),))
                p = E.record(E.PAR, arguments=args)
                for o in E.run(fw, [E.ast('Function', E.symbol(n), ('seq', (('e', p),)))]):
                    if o.kind != RET:
                        continue
                    k, v = E.result(o)
                    if k == 'Err':
                        rep.need(E.vname(v) == 'Unimplemented', 'operands of ' + w, 'unsupported operands of %s are reported as unimplemented' % w)
                        continue
                    x = [I.opaque(('at', ('v', ('args',), E.AST), j), E.AST) for j in (0, 1)]
                    two = o.st.facts.get(('iv', ('len', I.ident(('v', ('args',), E.AST)))), (0, BIG))[:2] == (2, 2)
                    kinds = [E.vname(E.get(y, o.st)) for y in x]
                    if not two or kinds != ['Integer', 'Integer']:
                        rep.bad('operands of ' + w, 'function %s has a value although its operands are not two integers' % flow.litof(n))
                    else:
                        rep.good('two integers are the only operands of %s with a value' % flow.litof(n))
            guarded(rep, 'operands of ' + w, 'AST::forward', others)
    # more than one list of arguments
    v = E.ast('Function', s, ('seq', tuple(('e', I.opaque(('p', i), E.PAR)) for i in range(2)) + (I.ident(('v', ('ps',), E.PAR)),)))

    def lists():
        for o in E.run(fw, [v]):
            if o.kind == RET:
                rep.need(E.result(o)[0] == 'Err', 'argument lists', 'f(..)(..) has no value')
    guarded(rep, 'argument lists', 'AST::forward', lists)
    # any other function
    known = {flow.litof(n) for ns in names.values() for n in ns} | {x for l in also.values() for x in l} | {'first', 'last', 'length', 'factorial', 'fibonacci'}
    L = T.top()
    for w in known:
        L = T.minus(L, T.lit(w))

    def unknown():
        st = I.with_lang(St(), ('name',), L)
        n = 0
        for o in E.run(fw, [E.call_any(E.symbol(('str', (('t', ('name',)),))))], st):
            if o.kind == RET:
                n += 1
                k, v = E.result(o)
                ws = [T.words(q, 3) for kk, q in o.st.facts.items() if kk == ('L', ('name',))]
                rep.need(k == 'Err' and E.vname(v) == 'Unimplemented', 'other functions', 'a function outside the evaluator\'s list is reported as unimplemented%s' % (
                    '' if k == 'Err' else ' (%s has a value)' % '/'.join(ws[0] if ws and ws[0] else ['some name'])))
        rep.need(n, 'other functions', 'functions outside the list are answered')
    guarded(rep, 'other functions', 'AST::forward', unknown)
    rep.info['operators'] = {w: sorted(map(str, map(flow.litof, n))) for w, n in names.items()}


def proves(I, st, op, a, b):
    try:
        r = I.cmp(st, op, I.nrm(st, a), I.nrm(st, b))
    except Giveup:
        return False
    return bool(r) and all(y for _, y in r)


def show(v):
    return brief(v, 120)


# -------------------------------------------------------------------- C02
def c02(progs, rep):
    E = Ev(progs, rep)
    I = E.I
    for suffix, argc, what in (('Runner>::evaluate', 2, 'Runner::evaluate'), ('Runner>::last', 1, 'Runner::last'),
                               ('>::forward', 2, 'AST::forward')):
        fs = E.fn(suffix, argc)
        if not rep.need(fs, 'entry ' + what, '%s is found in the crate' % what):
            continue
        for f in fs:
            def go():
                st = St()
                args = []
                b = I.P.bodies[f]['body']
                for k in range(b['argc']):
                    ty = b['locals'][k + 1]
                    t = I.types[ty]
                    e = t['el'] if t['k'] == 'ref' else ty
                    v = I.opaque(('arg', k), e)
                    session(I, st, v, e)
                    args.append(('ref', I.heap(st, v), ()) if t['k'] == 'ref' and t.get('mut') else vref(v) if t['k'] == 'ref' else v)
                n = 0
                for o in I.call_body(f, args, st):
                    rep.paths += 1
                    if o.kind == RET:
                        n += 1
                    else:
                        rep.bad('panic in %s at %s' % (what, where(I, o)), '%s panics: %s (%s)%s' % (what, o.val, at(o), situation(E, o)))
                rep.good('%s: %d outcomes without panic' % (what, n))
                rep.funcs |= set(I.funcs)
            guarded(rep, what, what, go)


def session(I, st, v, ty):
    """a session has not reached 2^62 inputs"""
    d = I.types[ty]
    if v[0] == 'n' and d['k'] == 'int':
        st.facts[('iv', v[2])] = (0, BIG, frozenset())
    elif v[0] == 'o' and d['k'] == 'adt' and d['kind'] == 'struct' and 'sm_ast' in d['adt']:
        x = I.expanded(v, 0)
        for f, t in zip(x[3], I.fields(ty, 0)):
            session(I, st, f, t)


def where(I, o):
    """function in which an outcome ends"""
    return (o.span or '?').split('/')[-1].split(':')[0]


def situation(E, o):
    """what the facts say about the tree"""
    out = []
    for k, v in o.st.facts.items():
        if k[0] == 'exp' and isinstance(v, int):
            out.append(str(v))
        elif k[0] == 'L':
            w = T.words(v, 3)
            if w:
                out.append('name ' + '/'.join(w))
    return ' for ' + ', '.join(x for x in out if x.startswith('name')) if any(x.startswith('name') for x in out) else ''


# -------------------------------------------------------------------- C03
KINDS = {'OverFlow': 'Overflow', 'ComplexInfinity': 'ComplexInfinity', 'IOError': 'IOError', 'Unimplemented': 'Unimplemented'}


def c03(progs, rep):
    E = Ev(progs, rep)
    I = E.I
    seen = set()
    for f in E.fn('::from', 1):
        b = I.P.bodies[f]['body']
        if b['locals'][0] != E.ERR:
            continue
        src = I.types[b['locals'][1]]
        nm = src.get('adt', '?').split('::')[-1] if src['k'] == 'adt' else src['k']
        crate = src.get('crate', '?')

        def go():
            if crate == 'sm_algorithm':
                seen.add('algorithm')
                for vi, var in enumerate(src['variants']):
                    x = I.expanded(('o', ('err',), b['locals'][1]), vi)
                    for o in I.call_body(f, [x], St()):
                        rep.paths += 1
                        if o.kind != RET:
                            rep.bad('algorithm ' + var['name'], 'conversion of %s panics' % var['name'])
                            continue
                        v = E.get(o.val, o.st)
                        k = E.vname(v)
                        names = [q['name'] for q in I.types[E.ERR]['variants']]
                        want = KINDS.get(var['name'], var['name'] if var['name'] in names else 'Unknown')
                        good = k == want
                        if good and want == 'IOError':
                            good = len(v[3]) == 1 and E.same(v[3][0], x[3][0], o.st)
                        rep.need(good, 'algorithm ' + var['name'], 'sm_algorithm::Error::%s becomes SMError::%s%s' % (
                            var['name'], k, '' if k != want or want != 'IOError' else ' with its text'))
            else:
                want = 'IOError' if 'io' in src.get('adt', '').split('::') else 'ParseError' if crate.startswith('pest') else None
                if want is None:
                    return
                seen.add(want)
                x = I.opaque(('err',), b['locals'][1])
                for o in I.call_body(f, [x], St()):
                    rep.paths += 1
                    if o.kind != RET:
                        rep.bad('conversion to ' + want, 'conversion of %s panics' % nm)
                        continue
                    v = E.get(o.val, o.st)
                    txt = E.get(v[3][0], o.st) if v[0] == 'adt' and v[3] else None
                    rep.need(E.vname(v) == want and txt == ('str', (('disp', x),)), 'conversion to ' + want,
                             '%s becomes SMError::%s with its message' % (src['adt'], E.vname(v)))
        guarded(rep, 'conversion of ' + nm, 'From<%s> for SMError' % nm, go)
    rep.funcs |= set(I.funcs)
    for k in ('algorithm', 'IOError', 'ParseError'):
        rep.need(k in seen, 'conversion ' + k, 'there is a conversion of %s errors' % k)


# -------------------------------------------------------------------- C05, C06
def decomposition(v, t):
    """the decomposition of the text t into characters that a value refers to"""
    if isinstance(v, tuple):
        if v[:1] in (('cseg',), ('chr',)) and len(v) > 2 and v[1] == t:
            return v[2][:2]
        for x in v:
            r = decomposition(x, t)
            if r is not None:
                return r


def chars_of(I, st, t, d):
    """the parts of the text t under that decomposition, leaving out those known to be empty"""
    L, n = d
    cp = T.char_paths(L)
    if cp is None:
        cp = ((('seg', tuple(sorted(T.alphabet(L))), False),),)
    if len(cp) > 1 and st.facts.get(('path', t, L)) != n:
        return None
    out = []
    for i, it in enumerate(cp[n]):
        if it[0] == 'e':
            out.append(('e', I.nrm(st, ('cv', ('chr', t, (L, n, i), tuple(sorted(it[1])))))))
            continue
        p = I.ident(('cseg', t, (L, n, i), tuple(it[1]), it[2]))
        if I.ints(st, I.length(st, ('seq', (p,))))[:2] != (0, 0):
            out.append(p)
    return tuple(out)


def is_char(I, st, v, t, pos):
    """v is the first (0) or the last (-1) character of the text t"""
    if v[0] != 'str' or len(v[1]) != 1 or not isinstance(v[1][0], tuple) or v[1][0][0] != 'cv':
        return False
    n = v[1][0][1]
    d = decomposition(n, t)
    ps = d and chars_of(I, st, t, d)
    if not ps:
        return False
    p = ps[pos]
    if p[0] == 'e':
        return p[1] == v[1][0]
    if n[0] != 'at' or not isinstance(n[2], int):
        return False
    src, i = n[1], n[2]
    while src[0] == 'rev':
        src, i = src[1], -1 - i
    return p == I.ident(src) and i == pos


def is_empty(I, st, t):
    if T.word(I.tlang(st, t)) == '':
        return True
    for k, v in st.facts.items():
        if k[0] == 'iv' and v[:2] == (0, 0):
            if k[1] == ('bytes', t):
                return True
            d = decomposition(k[1], t)
            if d and chars_of(I, st, t, d) == ():
                return True
    return False


def no_value(E, fw, nm, skip, key):
    """every operand of another kind is reported as unimplemented"""
    I, rep = E.I, E.rep
    for vi, var in enumerate(I.types[E.AST]['variants']):
        if var['name'] in skip:
            continue
        x = I.expanded(('o', ('x',), E.AST), vi)
        for o in E.run(fw, [E.call(E.symbol(S(nm)), [x])]):
            if o.kind == RET:
                k, v = E.result(o)
                rep.need(k == 'Err' and E.vname(v) == 'Unimplemented', '%s of %s' % (nm, var['name']),
                         '%s of a %s is reported as unimplemented' % (nm, var['name']))


def c05(progs, rep):
    E = Ev(progs, rep)
    I = E.I
    fw = E.only('::forward', 2, 'AST::forward')
    if fw is None:
        return
    t = ('t',)
    x = E.ast('String', ('str', (('t', t),)))
    for nm, pos in (('first', 0), ('last', -1), ('length', None)):
        def go():
            n = 0
            for o in E.run(fw, [E.call(E.symbol(S(nm)), [x])]):
                if o.kind != RET:
                    continue
                k, v = E.result(o)
                if k == 'Err':
                    rep.need(pos is not None and E.vname(v) == 'EmptyContainer' and is_empty(I, o.st, t), nm,
                             'the only error of %s of a text is that the text is empty' % nm)
                    continue
                n += 1
                if pos is None:
                    z = E.get(v[3][0], o.st) if E.vname(v) == 'Integer' else None
                    good = z is not None and is_count(E, z, t, o.st)
                    rep.need(good, nm, 'length of a text is the number of its characters (%s)' % show(v))
                else:
                    good = E.vname(v) == 'String' and is_char(I, o.st, E.get(v[3][0], o.st), t, pos)
                    rep.need(good, nm, '%s of a text is its %s character (%s)' % (nm, nm, show(v)))
            rep.need(n, nm, '%s of a text has a value' % nm)
            no_value(E, fw, nm, ('String',), nm)
        guarded(rep, nm, nm, go)
    hs = E.fn('list_like::head', 1)
    if rep.need(len(hs) == 1, 'entry head', 'head is found in the crate'):
        def go():
            f = hs[0]
            for vi, var in enumerate(I.types[E.AST]['variants']):
                nm = var['name']
                y = I.expanded(('o', ('x',), E.AST), vi)
                outs = [o for o in I.call_body(f, [vref(y)], St())]
                rep.paths += len(outs)
                for o in outs:
                    if o.kind != RET:
                        rep.bad('head of ' + nm, 'head of a %s panics' % nm)
                        continue
                    v = E.get(o.val, o.st)
                    if nm in ('EmptyStatement', 'Program'):
                        good = E.vname(v) == 'EmptyStatement'
                    elif nm == 'Function':
                        good = head_of(E, v, y, o.st)
                    else:
                        good = E.vname(v) == 'Symbol' and is_name(E, v[3][0], ['std', 'core'], nm, o.st)
                    rep.need(good, 'head of ' + nm, 'head of a %s is %s' % (nm, show(v)))
        guarded(rep, 'head', 'head', go)
    rep.funcs |= set(I.funcs)


def is_count(E, z, t, st):
    I = E.I
    if z[0] == 'i' and is_empty(I, st, t):
        return z[1] == 0
    d = decomposition(z, t)
    if d is None:
        w = T.char_paths(I.tlang(st, t))
        return z[0] == 'i' and w is not None and all(it[0] == 'e' for p in w for it in p) and {len(p) for p in w} == {z[1]}
    ps = chars_of(I, st, t, d)
    return ps is not None and I.nrm(st, z)[:3] == I.nrm(st, I.length(st, ('seq', ps)))[:3]


def is_name(E, s, ns, name, st):
    d = E.S.adt(s, st, E.SYM, None, 'symbol')
    q = E.get(d['name_space'], st)
    return q[0] == 'seq' and [flow.litof(E.get(p[1], st)) if p[0] == 'e' else None for p in q[1]] == ns and E.S.lit(d['name'], st) == name


def head_of(E, v, y, st):
    """name of an application without its last list of arguments"""
    I = E.I
    lo, hi = I.ints(st, I.length(st, y[3][1]))[:2]
    if (lo, hi) == (0, 0):
        return E.vname(v) == 'Symbol' and is_name(E, v[3][0], ['std', 'core'], 'Symbol', st)
    if (lo, hi) == (1, 1):
        return E.vname(v) == 'Symbol' and E.same(v[3][0], y[3][0], st)
    if lo < 2:
        return False
    q = E.get(v[3][1], st) if E.vname(v) == 'Function' else ('?',)
    if q[0] != 'seq' or not E.same(v[3][0], y[3][0], st):
        return False
    want = I.subseq(st, E.get(y[3][1], st), 0, 1)
    return q == want


def c06(progs, rep):
    E = Ev(progs, rep)
    I = E.I
    fw = E.only('::forward', 2, 'AST::forward')
    if fw is None:
        return
    n = E.int(('n',))
    for nm, alg in (('factorial', 'factorial_i'), ('fibonacci', 'fibonacci_i')):
        def go():
            good, bad = 0, set()
            for o in E.run(fw, [E.call(E.symbol(S(nm)), [E.ast('Integer', n)])]):
                if o.kind != RET:
                    continue
                k, v = E.result(o)
                calls = [(kk[1], vv) for kk, vv in o.st.facts.items() if kk[0] == 'exp' and isinstance(kk[1], tuple) and kk[1][0] == 'ap']
                if len(calls) != 1 or calls[0][0][1].split('::')[-1] != alg or [strip(a) for a in calls[0][0][2]] != [strip(n)]:
                    rep.bad(nm, '%s(n) is not decided by %s(n)' % (nm, alg))
                    continue
                r = calls[0][0]
                if calls[0][1] == 0:        # Ok
                    z = E.get(v[3][0], o.st) if k == 'Ok' and E.vname(v) == 'Integer' else None
                    good += rep.need(z is not None and strip(z) == ('n', 0, ('fd', strip(r), 0, 0)), nm, '%s(n) is the value of %s(n)' % (nm, alg)) or 0
                else:
                    e = o.st.facts.get(('exp', ('fd', r, 1, 0)))
                    t = I.tid(lambda d: d['k'] == 'adt' and d['adt'].startswith('sm_algorithm') and d['adt'].endswith('::Error'))
                    en = I.types[t]['variants'][e]['name'] if e is not None and t is not None else None
                    want = KINDS.get(en, 'Unknown')
                    rep.need(k == 'Err' and (E.vname(v) == want or E.vname(v) == en), nm + ' error', 'error %s of %s is reported as %s' % (en, alg, E.vname(v) if k == 'Err' else 'a value'))
                    bad.add(en)
            rep.need(good, nm, '%s(n) has a value' % nm)
            rep.need(bad, nm + ' error', 'errors of %s are reported' % alg)
            no_value(E, fw, nm, ('Integer',), nm)
        guarded(rep, nm, nm, go)


# -------------------------------------------------------------------- C04
def find_fields(E, v, pred, path=()):
    """[(path, value)] of the fields of a session that satisfy pred(type)"""
    I = E.I
    out = []
    d = I.types[v[2]] if v[0] == 'o' else I.types[v[1]]
    x = I.expanded(v, 0) if v[0] == 'o' else v
    for i, (f, t) in enumerate(zip(x[3], I.fields(x[1], 0))):
        if pred(I.types[t]):
            out.append((path + (i,), f))
        elif I.types[t]['k'] == 'adt' and 'sm_ast' in I.types[t]['adt'] and I.types[t]['kind'] == 'struct':
            out += find_fields(E, f, pred, path + (i,))
    return out


def c04(progs, rep):
    state = {}

    def cut(E, inst, args, st, rty):
        """evaluating a tree gives a value or an error (its content is C01, C05 and C06)"""
        I = E.I
        b = I.P.bodies[inst]
        if b['crate'] != 'sm_ast' or not b['name'].endswith('>::forward') or b['body']['argc'] != 2:
            return None
        v = I.D(st, args[0])
        if not (v[0] == 'o' and v[2] == E.AST):
            return None
        state['fw'] = state.get('fw', 0) + 1
        out = []
        for vn in ATOMS:
            s = st.copy()
            x = I.expanded(('o', ('value', v[1]), E.AST), I.variant(E.AST, vn))
            s.facts[('exp', ('value', v[1]))] = x[2]
            out.append(Out(RET, s, ('adt', rty, I.variant(rty, 'Ok'), (x,))))
        vi = I.variant(rty, 'Err')
        out.append(Out(RET, st.copy(), ('adt', rty, vi, (I.opaque(('failure', v[1]), I.fields(rty, vi)[0]),))))
        return out
    E = Ev(progs, rep, cut)
    I = E.I
    ev = E.only('Runner>::evaluate', 2, 'Runner::evaluate')
    la = E.only('Runner>::last', 1, 'Runner::last')
    if ev is None or la is None:
        return

    def go():
        b = I.P.bodies[ev]['body']
        ty = I.types[b['locals'][1]]['el']
        self0 = I.opaque(('self',), ty)
        st = St()
        session(I, st, self0, ty)
        text = ('str', (('t', ('input',)),))
        ism = lambda el: lambda d: d['k'] == 'adt' and d['adt'].split('::')[-1] in ('BTreeMap', 'HashMap') and el(d['args'][1])
        counter = find_fields(E, self0, lambda d: d['k'] == 'int')
        ins = find_fields(E, self0, ism(lambda t: I.last(t) == 'String'))
        outs = find_fields(E, self0, ism(lambda t: t == E.AST))
        if len(counter) != 1 or len(ins) != 1 or len(outs) != 1:
            raise Giveup('a session is not one counter, one map of inputs and one map of outputs')
        (cp, c0), (ip, i0), (op, o0) = counter[0], ins[0], outs[0]
        at_ = lambda v, p: v if not p else at_((I.expanded(v, 0) if v[0] == 'o' else v)[3][p[0]], p[1:])
        new = I.nrm(st, ('n', 1, c0[2], c0[3]))
        cell = I.heap(st, self0)
        good = 0
        for o in I.call_body(ev, [('ref', cell, ()), vref(text)], st):
            rep.paths += 1
            if o.kind != RET:
                continue
            s = o.st
            after = s.cells.get(cell)
            k, v = E.result(o)
            tree = ('parse', I.tnorm(s, text))
            rep.need(strip(I.nrm(s, at_(after, cp))) == strip(new), 'counter', 'every input takes the next number')
            x = at_(after, ip)
            want = (('e', ('tup', (new, text))),)
            rep.need(x[:2] == i0[:2] and entries(E, x, s) == entries(E, ('map', None, want), s), 'inputs', 'the text is recorded under that number, and no other input changes')
            y = at_(after, op)
            if k == 'Ok':
                good += 1
                es = y[2]
                okv = y[:2] == o0[:2] and len(es) == 1 and es[0][0] == 'e' and strip(I.nrm(s, es[0][1][1][0])) == strip(new)
                val = E.get(es[0][1][1][1], s) if okv else None
                src = [kk[1] for kk in s.facts if kk[0] == 'exp' and isinstance(kk[1], tuple) and kk[1][0] == 'value']
                okv = okv and len(src) == 1 and src[0][1][:2] == tree and src[0][1][3] == 'Ok' and val == I.expanded(('o', src[0], E.AST), s.facts[('exp', src[0])])
                rep.need(okv, 'outputs', 'the value of the tree of that text is recorded under the same number, and no other output changes')
                if okv:
                    shown = {flowlib.deepD(I, s2, t) for s2, t in flowlib.display(I, s, val)}
                    got = I.tnorm(s, v)
                    pos = [I.tnorm(s2, t) for s2, t in flowlib.display(I, s, val)]
                    rep.need(got in pos and len(pos) == 1, 'text', 'the answer is the recorded value as it is displayed (%s)' % show(got))
                    for o2 in I.call_body(la, [vref(after)], s.copy()):
                        if o2.kind != RET:
                            rep.bad('last', 'last panics after a successful input')
                            continue
                        k2, v2 = E.result(o2)
                        rep.need(k2 == 'Ok' and E.same(v2, val, o2.st), 'last', 'last is the value just recorded')
            else:
                rep.need(y == o0, 'outputs', 'an input that fails records no output')
                e = E.get(v, s)
                rep.need(e[0] == 'o' and e[1][0] == 'fd' or e[0] == 'o' and (e[1][:2] == tree or e[1][0] == 'failure' and e[1][1][:2] == tree), 'error',
                         'the error is the one the parser or the evaluator reports (%s)' % show(e))
                s2 = s.copy()
                s2.facts[('has', o0[1][0], new)] = False       # numbers are never reused
                for o2 in I.call_body(la, [vref(after)], s2):
                    if o2.kind != RET:
                        rep.bad('last', 'last panics after an input that failed')
                        continue
                    k2, v2 = E.result(o2)
                    rep.need(k2 == 'Err', 'last', 'last is an error after an input that failed')
        rep.need(good, 'outputs', 'an input can succeed')
        rep.need(state.get('fw'), 'evaluator', 'the session evaluates trees with AST::forward')
    guarded(rep, 'session', 'Runner::evaluate', go)
    rep.funcs |= set(I.funcs)
    # a new session is empty
    ds = [i for i in E.fn('::default', 0) if E.I.last(E.I.P.bodies[i]['body']['locals'][0]) == 'Runner']
    if rep.need(ds, 'entry default', 'a session can be made'):
        def empty():
            for d in ds:
                for o in I.call_body(d, [], St()):
                    if o.kind != RET:
                        rep.bad('default', 'making a session panics')
                        continue
                    fs = find_fields(E, o.val, lambda t: t['k'] == 'int' or t['k'] == 'adt' and t['adt'].split('::')[-1] in ('BTreeMap', 'HashMap'))
                    rep.need(len(fs) >= 3 and all(f in (('i', 0), ('map', None, ())) for _, f in fs), 'default', 'a new session has no inputs and no outputs')
        guarded(rep, 'default', 'Runner::default', empty)


def entries(E, m, st):
    return tuple((strip(E.I.nrm(st, p[1][1][0])), E.get(p[1][1][1], st)) if p[0] == 'e' else p for p in m[2])
