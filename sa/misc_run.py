"""Error texts (property E02) and constructors of trees (property E03)."""
import flow, flowlib
import text as T
from flow import Flow, Giveup, Out, RET, St, S, vref
from ast_specs import literals
from ast_sem import brief
from eval_run import guarded


def engine(P):
    cs = set()
    for b in list(P.bodies.values()) + list(P.generic.values()):
        literals(b['body'], cs)
    T.reset(cs)
    return Flow(P, {}, {})


# -------------------------------------------------------------------- E02
def fmt_impls(P, crate, trait):
    """{type name: body} of the crate's implementations of a formatting trait"""
    out = {}
    for i, b in P.bodies.items():
        n = b['name']
        if b['crate'] != crate or not n.endswith('fmt::%s>::fmt' % trait) and not ('fmt::%s for ' % trait in n and n.endswith('>::fmt')):
            continue
        t = n.split('fmt::%s for ' % trait)[1] if 'fmt::%s for ' % trait in n else n[1:].split(' as ')[0]
        out[t.split('>')[0].split('::')[-1]] = i
    return out


def pieces(I, st, dbg, v, depth=0):
    """[(state, [('lit', text) | ('all', value)])] the text written, or None where it is not whole"""
    out = [(st, [])]
    for p in v[1]:
        nxt = []
        for s, acc in out:
            if p[0] == 'fmt' and p[1] == 'debug' and not p[2]:
                x = p[3]
                t = x[1] if x and x[0] == 'adt' else x[2] if x and x[0] == 'o' else None
                name = I.last(t) if t is not None and not isinstance(x[0], tuple) else None
                if name in dbg and depth < 4:
                    nxt += [(s2, acc + q) for s2, q in formatted(I, s, dbg[name], x, dbg, depth + 1)]
                elif isinstance(x[0], tuple):           # the name and the fields of a derived form
                    q = []
                    for y in x:
                        if y[0] == 'str' and flowlib.litof(y) is not None:
                            q.append(('lit', flowlib.litof(y)))
                        else:
                            q.append(('all', y))
                    nxt.append((s, acc + q))
                else:
                    nxt.append((s, acc + [('all', x)]))
            elif p[0] == 't':
                nxt.append((s, acc + [('all', ('str', (p,)))]))
            elif flowlib.litof(('str', (p,))) is not None:
                nxt.append((s, acc + [('lit', flowlib.litof(('str', (p,))))]))
            else:
                nxt.append((s, acc + [('part', p)]))
        out = nxt
    return out


def formatted(I, st, inst, x, dbg, depth=0):
    s = st.copy()
    h = I.heap(s, S(''))
    out = []
    for o in I.call_body(inst, [vref(x), ('ref', h, ())], s):
        if o.kind != RET:
            raise Giveup('printing panics: %s' % o.val)
        o.st = o.st.copy()
        v = o.st.cells.pop(h)
        if o.val[0] != 'adt' or I.types[o.val[1]]['variants'][o.val[2]]['name'] != 'Ok':
            raise Giveup('printing fails')
        out += pieces(I, o.st, dbg, I.tnorm(o.st, v), depth)
    return out


def e02(progs, rep):
    for prog, crate, ty, traits in (('alg', 'sm_algorithm', 'Error', ('Display', 'Debug')), ('ast', 'sm_ast', 'SMError', ('Debug',))):
        P = progs[prog]
        I = engine(P)
        tid = next((i for i, t in enumerate(I.types) if t and t.get('k') == 'adt' and t.get('kind') == 'enum' and t['adt'].startswith(crate + '::') and I.last(i) == ty), None)
        if not rep.need(tid is not None, ty, 'the error type %s::%s is found' % (crate, ty)):
            continue
        dbg = fmt_impls(P, crate, 'Debug')
        for tr in traits:
            f = fmt_impls(P, crate, tr).get(ty)
            if not rep.need(f is not None, '%s of %s' % (tr, ty), '%s of %s::%s is found' % (tr, crate, ty)):
                continue
            for vi, var in enumerate(I.types[tid]['variants']):
                what = '%s of %s::%s::%s' % (tr, crate, ty, var['name'])

                def one():
                    fs = tuple(I.opaque(('field', i), t) for i, t in enumerate(I.fields(tid, vi)))
                    outs = formatted(I, St(), f, ('adt', tid, vi, fs), dbg)
                    rep.need(bool(outs), what, '%s has a text' % what)
                    rep.paths += len(outs)
                    for s, q in outs:
                        lit = [t for k, t in q if k == 'lit']
                        words = ' '.join(lit)
                        mine = [v['name'] for v in I.types[tid]['variants'] if v['name'] in __import__('re').findall(r'\w+', words)]
                        rep.need(mine == [var['name']], what + ' kind', '%s names its kind and no other (%s)' % (what, words))
                        for i, x in enumerate(fs):
                            rep.need(('all', x) in q, what + ' message', '%s shows its message whole (%s)' % (what, brief(q)))
                guarded(rep, what, what, one)
        rep.funcs |= set(I.funcs)


# -------------------------------------------------------------------- E03
def e03(progs, rep):
    P = progs['ast']
    I = engine(P)
    AST, SYM = I.find_adt('AST'), I.find_adt('Symbol')

    def into(c):
        v = c.D(0)
        if v[0] == 'o' and v[1] == ('argument',):
            if I.last(c.rty) == 'String':
                return flowlib.ret(c.st, ('str', (('t', ('conv', v)),)))
            return flowlib.ret(c.st, I.opaque(('conv', v), c.rty))
        g = flowlib.TABLE.get(c.key)
        if g is None:
            raise Giveup('conversion of %s' % brief(v))
        return g(c)

    def as_ref(c):
        v = c.D(0)
        if v[0] == 'o' and v[1] == ('argument',):
            return flowlib.ret(c.st, vref(('str', (('t', ('passed', v)),))))
        g = flowlib.TABLE.get(c.key)
        if g is None:
            raise Giveup('conversion of %s' % brief(v))
        return g(c)
    I.extern = {'Into::into': into, 'From::from': into, 'AsRef::as_ref': as_ref}

    def cut(I, inst, args, st, rty):
        b = I.P.bodies[inst]
        n = b['name']
        if b['crate'] == 'sm_ast' and n.endswith('From<&str> for sm_ast::ast::Symbol>::from'):
            # a symbol path becomes its symbol (B08)
            return [Out(RET, st, I.opaque(('symbol of', I.tnorm(st, I.D(st, args[0]))), rty))]
    I.cut = cut
    arg = ('o', ('argument',), None)
    conv = ('conv', arg)
    txt = ('str', (('t', ('passed', arg)),))

    def node(kind, value):
        def ok(v):
            return v[0] == 'adt' and v[1] == AST and v[2] == I.variant(AST, kind) and len(v[3]) == 1 and value(v[3][0])
        return ok

    def symbol(t):
        return lambda v: v[0] == 'o' and v[1] == ('symbol of', t)
    for name, want, say in (
            ('integer', node('Integer', lambda v: v == I.opaque(conv, I.fields(AST, I.variant(AST, 'Integer'))[0])), 'the integer given'),
            ('decimal', node('Decimal', lambda v: v == I.opaque(conv, I.fields(AST, I.variant(AST, 'Decimal'))[0])), 'the decimal given'),
            ('symbol', node('Symbol', symbol(txt)), 'the symbol whose path is the text given'),
            ('string', node('String', lambda v: v == ('str', (('t', conv),))), 'the text given')):
        g = [x for n, x in P.generic.items() if n.split('::')[-1] == name and n.split('>')[0].endswith('impl sm_ast::ast::AST') and x['body']['argc'] == 1]
        if not rep.need(len(g) == 1, 'constructor ' + name, 'the constructor AST::%s is found' % name):
            continue
        P.bodies['generic ' + name] = dict(g[0], crate='sm_ast')
        run(I, rep, 'generic ' + name, [arg], lambda st, v, want=want: want(v), 'AST::' + name, 'AST::%s builds the node of %s' % (name, say))

    def find(suffix, argc):
        fs = [i for i, b in P.bodies.items() if b['crate'] == 'sm_ast' and b['name'].endswith(suffix) and b['body']['argc'] == argc]
        if rep.need(len(fs) == 1, suffix, '%s is found' % suffix):
            return fs[0]

    def fields(v, tid):
        if v[0] == 'adt' and v[1] == tid:
            return {f[0]: I.D(St(), x) for f, x in zip(I.types[tid]['variants'][v[2]]['fields'], v[3])}
        return {}
    f = find('From<std::string::String> for sm_ast::ast::Symbol>::from', 1)
    if f:
        w = ('str', (('t', ('owned',)),))
        run(I, rep, f, [w], lambda st, v: symbol(w)(v), 'Symbol from String', 'a symbol made from an owned text is the one made from the text')
    KIND, POS, SET = I.find_adt('SymbolKind'), I.find_adt('Position'), I.find_adt('ParserSettings')
    zero = ('i', 0)
    for suffix, tid, want, say in (
            ('Default for sm_ast::ast::Symbol>::default', SYM, lambda d: d.get('name') == S('') and d.get('name_space') == ('seq', ()) and d.get('attributes') == zero and
             d.get('kind') == ('adt', KIND, I.variant(KIND, 'Normal'), ()), 'the default symbol has no name, no name space, no attributes and is of the normal kind'),
            ('Default for sm_ast::ast::Position>::default', POS, lambda d: d.get('file') == S('') and d.get('start') == ('tup', (zero, zero)) and d.get('end') == ('tup', (zero, zero)),
             'the default position names no file and starts and ends at (0, 0)'),
            ('Default for sm_ast::parser::ParserSettings>::default', SET, lambda d: d.get('file') == S('anonymous') and d.get('refine') == ('i', 1),
             'the default settings of the parser name the file anonymous and refine')):
        f = find(suffix, 0)
        if f:
            run(I, rep, f, [], lambda st, v, want=want, tid=tid: want(fields(v, tid)), suffix, say)
    rep.funcs |= set(I.funcs)


def run(I, rep, inst, args, want, key, say):
    def go():
        outs = I.call_body(inst, args, St())
        rep.paths += len(outs)
        rep.need(bool(outs), key, say)
        for o in outs:
            v = o.val if o.kind != RET else I.D(o.st, o.val)
            if o.kind == RET and v[0] == 'str':
                v = I.tnorm(o.st, v)
            rep.need(o.kind == RET and want(o.st, v), key, '%s (%s)' % (say, brief(v) if o.kind == RET else o.val))
    guarded(rep, key, say, go)
