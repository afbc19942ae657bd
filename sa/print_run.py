"""What trees are printed as (properties D01-D03).

The printing functions are interpreted from their MIR on one node whose
operands have every possible form; printing an operand is taken by its
contract (it yields the operand's text), so that the rules hold for trees of
any depth by induction."""
import flow, flowlib
import parser_specs
import text as T
from flow import Giveup, Out, RET, PANIC, St, S, vref
from ast_sem import brief
from eval_run import Ev, guarded, show

# operators by how tightly they bind, loosest first (the documented order, B02)
TEXT = {'Set': '=', 'Equal': '==', 'Grater': '>', 'GraterEqual': '>=', 'Plus': '+', 'Minus': '-', 'Multiply': '*', 'CenterDot': '⋅',
        'Kronecker': '⊗', 'Divide': '/', 'Quotient': '//', 'Modulo': '%', 'TensorProduct': '⊙', 'Power': '^'}


class Printer(Ev):
    def __init__(self, progs, rep):
        Ev.__init__(self, progs, rep)
        I = self.I
        self.KIND = I.find_adt('SymbolKind')
        self.show = I.displays.get(self.AST)
        self.words = {}

    def cut(self, I, inst, args, st, rty):
        if inst == self.show:
            st = st.copy()
            flowlib.write_text(I, st, args[1], (('disp', I.D(st, args[0])),))
            return [Out(RET, st, flowlib.ok(I, rty, flow.UNIT))]
        return Ev.cut(self, I, inst, args, st, rty)

    def text(self, v):
        """[(state, parts of the printed text)]; None instead of parts where printing fails"""
        I = self.I
        st = St()
        h = I.heap(st, S(''))
        out = []
        for o in I.call_body(self.show, [vref(v), ('ref', h, ())], st):
            out.append((o.st, I.tnorm(o.st, I.D(o.st, o.st.cells[h]))[1] if o.kind == RET else None))
        self.rep.paths += len(out)
        return out

    def ops(self, rule, longest=3):
        """the texts of an operator rule (those of at most that many characters)"""
        if rule not in self.words:
            A = self.A
            L = A.lang_of(rule)
            self.words[rule] = sorted(T.words(T.inter(L, T.rx(('seq', [('alt', [('eps',), ('set', T.sigma())])] * longest))), 400))
        return self.words[rule]

    def op(self, table, w):
        """the symbol the parser makes of an operator"""
        outs = [o for f in self.fn('::' + table, 1) for o in self.I.call_body(f, [S(w)], St())]
        if len(outs) != 1 or outs[0].kind != RET:
            raise Giveup('%s(%r)' % (table, w))
        return self.S.adt(outs[0].val, outs[0].st, self.SYM, None, 'symbol') and outs[0].val

    def node(self, sym, *lists):
        """an application to these lists of arguments: (arguments, [(key, value)])"""
        ps = tuple(('e', self.record(self.PAR, arguments=('seq', tuple(('e', a) for a in p[0])),
                                     options=('map', None, tuple(('e', ('tup', kv)) for kv in p[1])))) for p in lists)
        return self.ast('Function', sym, ('seq', ps))

    def leaf(self, name):
        """an operand that is not an operator expression: a symbol"""
        v = self.ast('Symbol', self.I.opaque((name,), self.SYM))
        self.I.named = self.I.named | {v}
        return v

    def levels(self):
        """{operator text: (how tightly it binds, associativity, rule)}"""
        out = {}
        for n, (a, rules) in enumerate(parser_specs.LEVELS):
            for r in rules:
                if r in self.A.ops and r != 'Dot':
                    for w in self.ops(r):
                        out[w] = (n, a, r)
        return out

    def openers(self):
        """texts that begin a comment"""
        g = self.A.g
        out = set()

        def first(e, seen):
            k = e[0]
            if k in ('str', 'istr'):
                out.add(e[1])
            elif k == 'seq':
                first(e[1][0] if isinstance(e[1], (list, tuple)) and e[1] and isinstance(e[1][0], (list, tuple)) else e[1], seen)
            elif k == 'ref' and e[1] in g and e[1] not in seen:
                first(g[e[1]], seen | {e[1]})
            else:
                for x in e[1:]:
                    if isinstance(x, (list, tuple)):
                        for y in (x if x and isinstance(x[0], (list, tuple)) else [x]):
                            first(y, seen)
        if 'COMMENT' in g:
            first(g['COMMENT'], set())
        return out


HOLE = 0xE000


def flat(parts, vals):
    """the printed text with one private character per operand; None if it contains anything else"""
    out = ''
    for p in parts or ():
        if isinstance(p, str):
            out += p
        elif p[0] == 'disp' and p[1] in vals:
            out += chr(HOLE + vals.index(p[1]))
        else:
            return None
    return out


def human(text):
    return ''.join('<%d>' % (ord(c) - HOLE + 1) if HOLE <= ord(c) < HOLE + 99 else c for c in text)


def peel(text, k):
    """(in parentheses?, rest) after operand k at the start of text, or None"""
    h = chr(HOLE + k)
    n = 0
    while text[n:n + 1] == '(':
        n += 1
    if text[n:n + 1] != h or text[n + 1:n + 1 + n] != ')' * n:
        return None
    return n > 0, text[n + 1 + n:]


def read(kind, w, text, n):
    """how an operator expression is printed: ([operand in parentheses?], texts around the operands)"""
    par, seps, k = [], [], 0
    while k < n:
        i = min((text.find(c) for c in ('(', chr(HOLE + k)) if c in text), default=-1)
        if i < 0:
            return None
        seps.append(text[:i])
        r = peel(text[i:], k)
        if r is None:
            return None
        par.append(r[0])
        text = r[1]
        k += 1
    seps.append(text)
    want = {'infix': [''] + [w] * (n - 1) + [''], 'prefix': [w, ''], 'suffix': ['', w]}[kind]
    return (par, seps) if [s.strip() for s in seps] == want else None


def d01(progs, rep):
    E = Printer(progs, rep)
    I = E.I
    lv = E.levels()
    if not rep.need(lv and E.show is not None, 'entry', 'trees implement Display, and the grammar has infix operators'):
        return
    ops = {('infix', w): E.op('infix_map', w) for w in sorted(lv)}
    for kind in ('prefix', 'suffix'):
        for w in E.ops(kind.capitalize()):
            ops[kind, w] = E.op(kind + '_map', w)
    names = {k: {w for kk, w in ops if kk == k} for k in ('infix', 'prefix', 'suffix')}
    comments = E.openers()
    rep.info['operators'] = {k: sorted(v) for k, v in names.items()}

    def operand(kind, w, tag):
        ls = [E.leaf(tag + 'l'), E.leaf(tag + 'r')] if kind == 'infix' else [E.leaf(tag + 'l')]
        return E.node(ops[kind, w], (ls, []))

    def printed(kind, w, args, key, what):
        """[(parentheses, texts)] over the ways one operator expression is printed"""
        out = []
        for st, ps in E.text(E.node(ops[kind, w], (args, []))):
            if not rep.need(ps is not None, key, 'printing %s does not panic' % what):
                continue
            t = flat(ps, args)
            r = read(kind, w, t, len(args)) if t is not None else None
            rep.need(r is not None, key, '%s is printed with its operator and its operands in order (%s)' % (what, human(t) if t is not None else brief(ps)))
            if r is not None:
                out.append(r)
        return out

    def regroups(kind, w, i, k2, w2):
        """would operand i, printed without parentheses, be read with another grouping"""
        if kind == 'infix':
            if k2 != 'infix':
                return False
            a, b = lv[w], lv[w2]
            return b[0] < a[0] or b[0] == a[0] and (i == 0) == (a[1] == 'Right')
        return k2 == 'infix' or kind == 'suffix' and k2 == 'prefix'

    def glue(t, own, words, key, what):
        """the text t begins with the operator `own`; is it read as another token"""
        for x in sorted(words):
            rep.need(not (len(x) > len(own) and t.startswith(x)), key, '%s is not read as %s' % (what, x))
        for x in sorted(comments):
            rep.need(not t.startswith(x), key, '%s does not begin a comment (%s)' % (what, x))

    for (kind, w), sym in sorted(ops.items()):
        def go():
            n = 2 if kind == 'infix' else 1
            key = '%s %s' % (kind, w)
            leafs = [E.leaf('x%d' % i) for i in range(n)]
            plain = printed(kind, w, leafs, key, 'operator %s' % w)
            rep.need(plain, key, 'there is a printed form of operator %s' % w)
            if kind == 'infix':
                for m in (3, 4):
                    printed(kind, w, [E.leaf('x%d' % i) for i in range(m)], key, 'operator %s with %d operands' % (w, m))
            for i in range(n):
                for (k2, w2) in sorted(ops):
                    args = list(leafs)
                    args[i] = operand(k2, w2, 'y')
                    what = 'operand %d of %s %s being %s %s' % (i + 1, kind, w, k2, w2)
                    for par, seps in printed(kind, w, args, key, what):
                        if regroups(kind, w, i, k2, w2):
                            rep.need(par[i], key + ' grouping', '%s is printed in parentheses' % what)
                        if par[i]:
                            continue
                        if kind == 'suffix' and k2 == 'suffix':
                            glue(w2 + seps[1], w2, names['suffix'], key + ' tokens', '%s followed by %s' % (w2, seps[1]))
                        elif kind == 'infix' and i == 0 and k2 == 'suffix':
                            glue(w2 + seps[1], w2, names['suffix'], key + ' tokens', '%s followed by %s' % (w2, seps[1]))
                        elif kind == 'prefix' and k2 == 'prefix':
                            glue(seps[0] + w2, w, names['prefix'], key + ' tokens', '%s followed by %s' % (seps[0], w2))
                        if kind == 'infix' and i > 0:
                            # whatever stands leftmost in an operand may begin with a prefix operator
                            for w3 in sorted(names['prefix']):
                                glue(seps[1].lstrip() + w3, w, names['infix'], key + ' tokens', '%s followed by %s' % (seps[1].strip() or w, w3))
            # any other operand
            for i in range(n):
                for what, args, unsafe in others(E, ops, leafs, i):
                    what = 'operand %d of %s %s being %s' % (i + 1, kind, w, what)
                    for st, ps in E.text(E.node(sym, (args, []))):
                        if not rep.need(ps is not None, key, 'printing %s does not panic' % what):
                            continue
                        t = flat(ps, args)
                        r = read(kind, w, t, n) if t is not None else None
                        rep.need(r is not None, key, '%s is printed with its operator and its operands in order (%s)' % (what, human(t) if t is not None else brief(ps)))
                        if kind == 'suffix' and r is not None and unsafe(st):
                            rep.need(r[0][i], key + ' grouping', '%s is printed in parentheses when it is printed with a sign' % what)
        guarded(rep, '%s %s' % (kind, w), 'printing of %s %s' % (kind, w), go)
    guarded(rep, 'atoms', 'printing of atoms', lambda: atoms(E))
    guarded(rep, 'calls', 'printing of calls', lambda: calls(E, ops))
    rep.funcs |= set(I.funcs)


def others(E, ops, leafs, i):
    """operands that are no operator expressions: [(what, operands, is the operand possibly printed with a sign)]"""
    I = E.I

    def no(st):
        return False
    for vi, var in enumerate(I.types[E.AST]['variants']):
        nm = var['name']
        if nm in ('Function', 'Program'):
            continue
        v = I.expanded(('o', ('z',), E.AST), vi)
        f = no
        if nm == 'Integer':
            f = lambda st, v=v: I.ints(st, I.nrm(st, v[3][0]))[0] is None or I.ints(st, I.nrm(st, v[3][0]))[0] < 0
        elif nm == 'Decimal':
            f = lambda st: not any(k[0] == 'b' and 'is_negative' in repr(k) and b is False or 'is_positive' in repr(k) and b is True for k, b in st.facts.items())
        args = list(leafs)
        args[i] = v
        yield 'a ' + nm, args, f
    some = next(iter(sorted(ops.items())))[1]
    for what, sym, lists in (('a call', None, [(1, 0)]), ('a call with options', None, [(2, 1)]), ('a repeated call', None, [(1, 0), (2, 0)]),
                             ('an empty call', None, [(0, 0)]), ('an operator called with options', some, [(2, 1)]), ('an operator called twice', some, [(2, 0), (1, 0)])):
        ls = [([E.leaf('a%d%d' % (k, j)) for j in range(a)], [(E.leaf('k%d%d' % (k, j)), E.leaf('v%d%d' % (k, j))) for j in range(o)]) for k, (a, o) in enumerate(lists)]
        if sym is None:
            sym = E.record(E.SYM, name_space=('seq', ()), kind=('adt', E.KIND, I.variant(E.KIND, 'Normal'), ()))
        args = list(leafs)
        args[i] = E.node(sym, *ls)
        yield what, args, no


def atoms(E):
    I, rep = E.I, E.rep
    for vi, var in enumerate(I.types[E.AST]['variants']):
        nm = var['name']
        if nm == 'Function':
            continue
        v = I.expanded(('o', ('x',), E.AST), vi)
        for st, ps in E.text(v):
            if not rep.need(ps is not None, nm, 'printing a %s does not panic' % nm):
                continue
            f = E.get(v[3][0], st) if v[3] else None
            if nm == 'EmptyStatement':
                good = ps == ()
            elif nm == 'Boolean':
                good = [I.tnorm(s, ('str', ps)) == S('true' if b else 'false') for s, b in I.truth(st, f)]
                good = all(good)
            elif nm == 'Integer':
                good = ps == (('dec', f),)
            elif nm in ('Decimal', 'String'):
                good = ('str', ps) == f or ps == (('disp', f),)
            elif nm == 'Symbol':
                good = is_name_text(E, st, f, ps)
            else:
                good = True
            rep.need(good, nm, 'a %s is printed as its value (%s)' % (nm, brief(ps)))


def loops_left(t):
    """is a loop left in the result that has no image of its source"""
    return isinstance(t, (tuple, frozenset)) and (isinstance(t, tuple) and t[:1] == ('fold',) or any(loops_left(x) for x in t))


def few_names(E, longest=6):
    """name and printed text of symbols with up to `longest` name spaces"""
    for n in range(longest + 1):
        ws = ['n%d' % i for i in range(n)] + ['name']
        sym = E.record(E.SYM, name_space=('seq', tuple(('e', S(w)) for w in ws[:-1])), name=S('name'))
        for st, ps in E.text(E.ast('Symbol', sym)):
            if ps is None or flow.litof(E.I.tnorm(st, ('str', ps))) != '::'.join(ws):
                return False
    return True


def is_name_text(E, st, sym, ps):
    I = E.I
    sym = I.expanded(sym, 0) if sym[0] == 'o' else sym
    d = E.S.adt(sym, st, E.SYM, None, 'symbol')
    q = E.get(d['name_space'], st)
    n = tuple(E.get(d['name'], st)[1])
    if loops_left(ps):
        E.rep.info['name spaces'] = 'printed by a loop that is not a plain join; symbols of up to 6 name spaces are decided'
        return few_names(E)
    if len(ps) == 1 and ps[0][0] == 'join' and flow.litof(ps[0][2]) == '::' and ps[0][1] and ps[0][1][-1][0] == 'e' \
            and E.get(ps[0][1][-1][1], st) == ('str', n):
        return joined(E, st, ps[0][1][:-1], q)
    if tuple(ps[len(ps) - len(n):]) != n:
        return False
    ps = ps[:len(ps) - len(n)]
    if I.ints(st, I.length(st, q))[:2] == (0, 0):
        return ps == ()
    # all name spaces, each followed by ::
    qs = I.parts(st, q)
    if len(ps) == len(qs) and all(p[0] == 'tm' and r[0] == 'm' and p[1] == r[1] and len(p[2]) == 1 and not p[2][0][0]
                                  and p[2][0][1] == (('t', ('el', p[1])), '::') for p, r in zip(ps, qs)):
        return True
    if len(ps) == 2 and ps[0][0] == 'join' and ps[1] == '::':
        j = ps[0]
        if j[2] != S('::') and j[2] != ('str', ('::',)):
            return False
        return joined(E, st, j[1], q)
    if len(ps) == 1 and ps[0][0] == 'join' and ps[0][2] in (S(''), ('str', ())):
        return False
    return False


def joined(E, st, parts, q):
    """the joined texts are the elements of q themselves, in order"""
    I = E.I
    if len(parts) != len(I.parts(st, q)):
        return False
    for a, b in zip(parts, I.parts(st, q)):
        if a[0] == 'e' and b[0] == 'e':
            if E.get(a[1], st) != E.get(b[1], st):
                return False
        elif a[0] == 'm' and b[0] == 'm' and a[1] == b[1] and len(a[2]) == 1 and not a[2][0][0]:
            e = a[2][0][1]
            if len(e) != 1 or e[0][0] != 'e' or E.get(e[0][1], st) != ('str', (('t', ('el', a[1])),)):
                return False
        else:
            return False
    return True


def squeeze(t):
    for c in ',:':
        t = t.replace(c + ' ', c)
    return t


def calls(E, ops):
    """applications that are not operator expressions: name, then every list of arguments and options in parentheses"""
    I, rep = E.I, E.rep
    shapes = [()]
    for a in range(4):
        for o in range(2):
            shapes.append(((a, o),))
    shapes += [((0, 2),), ((1, 3),), ((4, 2),), ((6, 3),)]
    shapes += [((1, 0), (0, 0)), ((2, 0), (1, 0)), ((1, 1), (1, 0), (2, 0)), ((2, 1), (2, 1))]
    syms = [('a function', E.record(E.SYM, name_space=('seq', ()), name=S('f'), kind=('adt', E.KIND, I.variant(E.KIND, 'Normal'), ())), None, 'f')]
    syms.append(('a qualified function', E.record(E.SYM, name_space=('seq', (('e', S('a')), ('e', S('b')))), name=S('f'),
                                                  kind=('adt', E.KIND, I.variant(E.KIND, 'Normal'), ())), None, 'a::b::f'))
    for (kind, w), sym in sorted(ops.items()):
        d = E.S.adt(sym, St(), E.SYM, None, 'symbol')
        q = ''.join(flow.litof(x[1]) + '::' for x in E.get(d['name_space'], St())[1]) + E.S.lit(d['name'], St())
        if all((k, w2) == (kind, w) or k != kind or ops[k, w2] != sym for k, w2 in ops):
            syms.append(('%s %s' % (kind, w), sym, kind, q))
    for what, sym, kind, name in syms:
        for shape in shapes:
            if kind and len(shape) == 1 and shape[0][1] == 0 and (shape[0][0] == 1 if kind != 'infix' else shape[0][0] > 1):
                continue        # an operator expression
            vals, lists, text = [], [], ''
            for a, o in shape:
                xs = [E.leaf('x%d' % (len(vals) + i)) for i in range(a)]
                vals += xs
                ks = []
                for i in range(o):
                    # several keys: numbers, whose order is known
                    k = E.leaf('x%d' % len(vals)) if o == 1 else E.ast('Integer', ('i', 10 + len(vals)))
                    v = E.leaf('x%d' % (len(vals) + 1))
                    vals += [k, v]
                    ks.append((k, v))
                lists.append((xs, ks))
                ix = [chr(HOLE + vals.index(x)) for x in xs]
                text += '(' + ','.join(ix + ['%s:%s' % (chr(HOLE + vals.index(k)), chr(HOLE + vals.index(v))) for k, v in ks]) + ')'
            for st, ps in E.text(E.node(sym, *lists)):
                key = 'call of ' + what.split(' ')[0]
                nm = '%s called with %s' % (what, ', '.join('%d arguments and %d options' % s for s in shape) or 'no list of arguments')
                if not rep.need(ps is not None, key, 'printing %s does not panic' % nm):
                    continue
                t = flat(ps, vals)
                good = t is not None and (squeeze(t) == name + text)
                if not good and t is not None and kind and shape and shape[0][1] == 0 and t.startswith('('):
                    # an operator expression in parentheses, and the lists that follow it
                    n = shape[0][0]
                    for j in [i for i, c in enumerate(t) if c == ')']:
                        w = E.S.lit(E.S.adt(sym, st, E.SYM, None, 'symbol')['kind'][3][0], st)
                        first = '(' + ','.join(chr(HOLE + i) for i in range(n)) + ')'
                        if read(kind, w, t[1:j], n) and squeeze(t[j + 1:]) == text[len(first):]:
                            good = True
                rep.need(good, key, '%s is printed as its name and its lists of arguments (%s)' % (nm, human(t) if t is not None else brief(ps)))
    # any number of arguments and options
    x = E.record(E.PAR)
    d = x[3]
    try:
        outs = E.text(E.ast('Function', syms[0][1], ('seq', (('e', x),))))
    except Giveup as e:
        rep.info['any number of arguments'] = 'not decided (%s); up to 3 arguments and 1 option are' % str(e)[:120]
        return
    fs = dict(zip([f[0] for f in I.types[E.PAR]['variants'][0]['fields']], d))
    for st, ps in outs:
        if not rep.need(ps is not None, 'call of a', 'printing a call does not panic, whatever its arguments'):
            continue
        if loops_left(ps):
            rep.info['any number of arguments'] = 'printed by a loop that is not a plain join; up to 6 arguments and 3 options are decided'
            continue
        rep.need(list_text(E, st, ps, fs), 'call of a', 'a call is printed with all its arguments and options, in order (%s)' % brief(ps))


def list_text(E, st, ps, fs):
    """f( the arguments, then the options, separated by commas )"""
    I = E.I
    lo = I.ints(st, I.length(st, E.get(fs['arguments'], st)))[:2]
    js = [p for p in ps if isinstance(p, tuple)]
    if ''.join(p for p in ps if isinstance(p, str)) != 'f()':
        return False
    if not js:
        return lo == (0, 0)
    if len(js) != 1 or js[0][0] != 'join' or [p for p in ps if isinstance(p, str)] != ['f(', ')']:
        return False
    if flow.litof(js[0][2]).strip() != ',':
        return False
    srcs = []
    for p in js[0][1]:
        if p[0] != 'm' or len(p[2]) != 1 or p[2][0][0] or len(p[2][0][1]) != 1 or p[2][0][1][0][0] != 'e':
            return False
        t = p[2][0][1][0][1]
        if t[0] != 'str':
            return False
        el = I.el(p[1])
        if p[1][0] == 'items':
            if not (len(t[1]) == 3 and isinstance(t[1][1], str) and t[1][1].strip() == ':'
                    and [flowlib.deepD(I, st, x[1]) for x in (t[1][0], t[1][2])] == [flowlib.deepD(I, st, x) for x in el[1]]):
                return False
            srcs.append(('options', p[1]))
        else:
            if t[1] != (('disp', el),):
                return False
            srcs.append(('arguments', p[1]))
    want = [('arguments', p[1]) for p in I.parts(st, E.get(fs['arguments'], st))]
    o = E.get(fs['options'], st)
    want.append(('options', ('items', o[1][0], o[1][1], o[1][2])))

    def some(xs):
        return [x for x in xs if I.ints(st, I.length(st, ('seq', (I.ident(x[1]),))))[:2] != (0, 0)]
    return some(srcs) == some(want)


# -------------------------------------------------------------------- D02
class Wolfram(Printer):
    def __init__(self, progs, rep):
        Printer.__init__(self, progs, rep)
        self.me = [i for i in self.A.find('::to_wolfram') if '{closure' not in self.I.P.bodies[i]['name']
                   and self.I.types[self.I.P.bodies[i]['body']['locals'][1]].get('el') == self.AST]
        self.hook = self.child

    @staticmethod
    def child(E, inst, args, st, rty):
        """the form of an operand is the form of that operand"""
        if inst in E.me:
            return [Out(RET, st, E.I.opaque(('wl', E.I.D(st, args[0])), rty))]

    def canon(self, v, st):
        """a Wolfram value as nested tuples: ('F', head, items), ('S', text), ('form', tree), ..."""
        I = self.I
        v = I.D(st, v)
        if v[0] == 'adt':
            n = self.vname(v)
            if n == 'Function':
                return ('F', self.canon(v[3][0], st), self.items(v[3][1], st))
            if n in ('Symbol', 'String'):
                return ('S' if n == 'Symbol' else 's', self.txt(v[3][0], st))
            return (n,) + tuple(self.txt(x, st) if I.D(st, x)[0] == 'str' else flowlib.deepD(I, st, x) for x in v[3])
        if v[0] != 'o':
            raise Giveup('Wolfram value %s' % brief(v))
        n = v[1]
        if n[0] == 'wl':
            return ('form', flowlib.deepD(I, st, n[1]))
        if n == ('a', 0):
            return ('acc',)
        if n[0] == 'ap' and n[1].startswith('WolframValue::'):
            k = n[1].split('::')[1]
            if k in ('symbol', 'new_symbol'):
                return ('S', self.txt(n[2][0], st))
            if k == 'string':
                return ('s', self.txt(n[2][0], st))
            if k == 'function':
                return ('F', ('S', self.txt(n[2][0], st)), self.items(n[2][1], st))
            if k == 'list':
                return ('F', ('S', ('List',)), self.items(n[2][0], st))
        if n[0] == 'fold' and len(n[2]) == 1 and len(n[3]) == 1:
            br = n[3][0]
            if len(br) != 1 or br[0][0]:
                raise Giveup('a list of arguments is not always taken the same way')
            return ('fold', n[1], self.canon(n[2][0], st), self.canon(br[0][1], st))
        raise Giveup('Wolfram value %s' % brief(v))

    def txt(self, v, st):
        v = self.I.D(st, v)
        return self.I.tnorm(st, v)[1] if v[0] == 'str' else (flowlib.deepD(self.I, st, v),)

    def items(self, v, st):
        v = self.I.D(st, v)
        if v[0] != 'seq':
            raise Giveup('operands %s' % brief(v))
        out = []
        for p in v[1]:
            if p[0] == 'e':
                out.append(self.one(p[1], st))
            elif p[0] == 'm' and len(p[2]) == 1 and not p[2][0][0]:
                e = p[2][0][1]
                if len(e) != 1 or e[0][0] != 'e':
                    raise Giveup('an operand is not taken exactly once')
                out.append(('all', p[1], self.one(e[0][1], st)))
            else:
                raise Giveup('operands %s' % brief(p))
        return tuple(out)

    def one(self, v, st):
        v = self.I.D(st, v)
        if v[0] in ('o', 'adt') and v[2 if v[0] == 'o' else 1] == self.AST:
            return ('form', flowlib.deepD(self.I, st, v))
        return self.canon(v, st)

    def head(self, sym, st):
        """the head of the form of an application of sym"""
        I = self.I
        sym = I.expanded(sym, 0) if sym[0] == 'o' else sym
        n = self.get(self.S.adt(sym, st, self.SYM, None, 'symbol')['name'], st)
        n = I.tnorm(st, n)
        if flow.litof(n) == 'factor' or len(n[1]) == 1 and n[1][0][0] == 't' and T.word(I.tlang(st, n[1][0][1])) == 'factor':
            return ('S', ('FactorInteger',))
        return ('S', (('t', ('ap', 'text_utils::capitalize_first_letter', (n,))),))


def d02(progs, rep):
    E = Wolfram(progs, rep)
    I = E.I
    if not rep.need(len(E.me) == 1, 'entry', 'trees have a Wolfram form'):
        return
    me = E.me[0]

    def outs(v):
        r = I.call_body(me, [vref(v)], St())
        rep.paths += len(r)
        return r

    def each(v, want, key, what):
        n = 0
        for o in outs(v):
            if not rep.need(o.kind == RET, key, 'the form of %s does not panic' % what):
                continue
            n += 1
            c = E.canon(o.val, o.st)
            w = want(o.st)
            rep.need(c == w, key, 'the Wolfram form of %s is the same expression (%s)' % (what, brief(c)))
        rep.need(n, key, '%s has a Wolfram form' % what)

    def rule(k, v):
        return ('F', ('S', ('Rule',)), (('form', k), ('form', v)))

    for vi, var in enumerate(I.types[E.AST]['variants']):
        nm = var['name']
        if nm == 'Function':
            continue

        def go():
            v = I.expanded(('o', ('x',), E.AST), vi)
            f = v[3][0] if v[3] else None

            def want(st):
                if nm == 'EmptyStatement':
                    return ('Skip',)
                if nm == 'Boolean':
                    r = [b for _, b in I.truth(st, f)]
                    return ('S', ('True' if r[0] else 'False',)) if len(r) == 1 else ('undecided',)
                if nm == 'Integer':
                    return ('BigInteger', f)
                if nm == 'Decimal':
                    return ('BigDecimal', (('disp', f),))
                if nm == 'Symbol':
                    s = I.expanded(f, 0) if f[0] == 'o' else f
                    return ('S', E.txt(E.S.adt(s, st, E.SYM, None, 'symbol')['name'], st))
                if nm == 'String':
                    return ('s', I.tnorm(st, f)[1])
                p = E.get(f, st)[1]
                return ('F', ('S', ('CompoundExpression',)), tuple(('all', x[1], ('form', I.el(x[1]))) for x in p))
            each(v, want, nm, 'a ' + nm)
        guarded(rep, nm, 'the form of a ' + nm, go)

    def calls():
        shapes = [()] + [((a, o),) for a in range(4) for o in range(2)] + [((1, 0), (0, 0)), ((2, 1), (1, 0)), ((1, 1), (0, 0), (2, 1))]
        for name in (None, 'f', 'factor', 'factorial', 'Factor', 'add'):
            for shape in shapes:
                sym = E.record(E.SYM, name=S(name)) if name else E.record(E.SYM)
                lists, k = [], 0
                for a, o in shape:
                    # any trees
                    xs = [I.opaque(('x%d' % (k + i),), E.AST) for i in range(a)]
                    kv = [(I.opaque(('k%d' % (k + i),), E.AST), I.opaque(('v%d' % (k + i),), E.AST)) for i in range(o)]
                    k += a + o
                    lists.append((xs, kv))

                def want(st):
                    w = E.head(sym, st)
                    for xs, kv in lists:
                        w = ('F', w, tuple(('form', x) for x in xs) + tuple(rule(a, b) for a, b in kv))
                    return w
                each(E.node(sym, *lists), want, 'application', '%s with %s' % (name or 'any function', ', '.join('%d arguments and %d options' % s for s in shape) or 'no list'))
    guarded(rep, 'application', 'the form of an application', calls)

    # any number of lists, arguments and options
    v = I.expanded(('o', ('x',), E.AST), E.F)

    def want(st):
        p = E.get(v[3][1], st)
        L = I.parts(st, p)
        el = I.el(L[0][1])
        d = dict(zip([f[0] for f in I.types[E.PAR]['variants'][0]['fields']], I.expanded(el, 0)[3]))
        a, o = E.get(d['arguments'], st), E.get(d['options'], st)
        src = ('items', o[1][0], o[1][1], o[1][2])
        kv = [flowlib.deepD(I, st, x) for x in I.el(src)[1]]
        step = ('F', ('acc',), tuple(('all', q[1], ('form', I.el(q[1]))) for q in a[1]) + (('all', src, rule(*kv)),))
        return ('fold', L[0][1], E.head(v[3][0], st), step)
    try:
        each(v, want, 'application', 'an application with any lists of arguments and options')
    except Giveup as e:
        rep.info['any number of lists'] = 'not decided (%s); up to 3 lists, 3 arguments and 1 option are' % str(e)[:120]
    rep.funcs |= set(I.funcs)


# -------------------------------------------------------------------- D03
def d03(progs, rep):
    E = Ev(progs, rep)
    I = E.I
    fs = E.fn('::parse_file', 3)
    if not rep.need(len(fs) == 1, 'entry', 'ParserSettings::parse_file is found'):
        return
    b = I.P.bodies[fs[0]]['body']
    src, dst = ('str', (('t', ('from',)),)), ('str', (('t', ('to',)),))
    me = I.opaque(('self',), b['locals'][1])
    text = ('str', (('t', ('file', src)),))

    def go():
        args = [I.opaque(('self',), b['locals'][1]), src, dst]
        outs = I.call_body(fs[0], args, St())
        rep.paths += len(outs)
        seen = set()
        for o in outs:
            if not rep.need(o.kind == RET, 'panic', 'parse_file does not panic (%s)' % (brief(o.val) if o.kind == RET else o.val)):
                continue
            io = o.st.facts.get(('io',), ())
            ok = {k[1][1][0]: v for k, v in o.st.facts.items() if k[0] == 'b' and k[1][0] == 'io-ok'}
            rep.need(all(e[1] == (src if e[0] in ('read', 'open') else dst) for e in io), 'files', 'only the source is read and only the target is written')
            kinds = [e[0] for e in io]
            core = [k for k in kinds if k not in ('open', 'flush')]
            k, v = E.result(o)
            failed = [w for w in ok if ok[w] is False]
            if k == 'Ok':
                good = core == ['read', 'create', 'write'] and not failed
                rep.need(good, 'success', 'success means that the source was read and the target created and written, once each, without an error (%s)' % kinds)
                rep.need(not any(x[0] == 'unflushed' and y for x, y in o.st.facts.items()), 'success', 'success means that nothing is left in a buffer, whose errors would be lost')
                seen.add('ok')
            elif failed:
                w = failed[0]
                seen.add('read' if w == 'open' else w)
                n = ('io-error', (w, src if w in ('read', 'open') else dst))
                good = len(failed) == 1 and E.vname(v) == 'IOError' and v[3][0][0] == 'str' and len(v[3][0][1]) == 1 and v[3][0][1][0][0] == 'disp' and v[3][0][1][0][1][1] == n
                rep.need(good, 'error', 'an error of %s is returned with its message (%s)' % (w, brief(v)))
                rep.need(core == ['read', 'create', 'write'][:len(core)] and kinds[-1] == w, 'order', 'nothing else happens after %s failed (%s)' % (w, kinds))
            else:
                seen.add('parse')
                good = v[0] == 'o' and v[1][:2] == ('parse', text) and v[1][3] == 'Err'
                rep.need(good, 'parse', 'the error of the parser is returned (%s)' % brief(v))
                rep.need(core == ['read'], 'order', 'the target is not touched when the source does not parse (%s)' % kinds)
            for e in io:
                if e[0] != 'write':
                    continue
                d = e[2]
                n = None
                if d[0] == 'seq' and len(d[1]) == 1 and d[1][0][0] == 'm' and d[1][0] == I.ident(d[1][0][1]):
                    n = d[1][0][1]
                n = n[1] if n and n[0] == 'v' else None
                good = n and n[0] == 'ap' and n[1] == 'ToWolfram::to_wolfram_bytes' and n[2][0][0] == 'o' and n[2][0][1][:2] == ('parse', text) and n[2][0][1][3] == 'Ok'
                rep.need(good, 'content', 'what is written is the Wolfram form of the tree of the source (%s)' % brief(d))
        for k in ('ok', 'read', 'parse', 'write'):
            rep.need(k in seen, 'case ' + k, 'parse_file has an outcome for %s' % {'ok': 'success', 'parse': 'a source that does not parse'}.get(k, 'a failing ' + k))
    guarded(rep, 'parse_file', 'parse_file', go)
    rep.funcs |= set(I.funcs)


# -------------------------------------------------------------------- D04
class Tex(Printer):
    def __init__(self, progs, rep):
        Printer.__init__(self, progs, rep)
        self.me = [i for i in self.A.find('::to_tex') if '{closure' not in self.I.P.bodies[i]['name']
                   and self.I.types[self.I.P.bodies[i]['body']['locals'][1]].get('el') == self.AST]
        self.hook = self.child

    @staticmethod
    def child(E, inst, args, st, rty):
        if inst in E.me:
            return [Out(RET, st, ('str', (('disp', E.I.D(st, args[0])),)))]

    def texts(self, v):
        I = self.I
        out = []
        for o in I.call_body(self.me[0], [vref(v)], St()):
            ps = None
            if o.kind == RET:
                t = I.D(o.st, o.val)
                if t[0] != 'str':
                    raise Giveup('TeX text %s' % brief(t))
                ps = I.tnorm(o.st, t)[1]
            out.append((o.st, ps))
        self.rep.paths += len(out)
        return out


def unbalanced(t):
    """the first delimiter of the text that is not paired, or None"""
    pairs = {')': '(', ']': '[', '}': '{', r'\}': r'\{', r'\right': r'\left'}
    stack, i = [], 0
    while i < len(t):
        c = t[i]
        tok = c
        i += 1
        if c == '\\':
            while i < len(t) and t[i] == '\\':
                i += 1
            if i < len(t) and t[i] in '{}':
                tok = '\\' + t[i]
                i += 1
            else:
                j = i
                while j < len(t) and t[j].isascii() and t[j].isalpha():
                    j += 1
                tok = '\\' + t[i:j]
                i = j
                if tok in (r'\left', r'\right'):
                    # the delimiter itself
                    while i < len(t) and t[i] == '\\':
                        i += 1
                    i += 1
        if tok in pairs.values():
            stack.append(tok)
        elif tok in pairs:
            if not stack or stack.pop() != pairs[tok]:
                return tok
    return stack[-1] if stack else None


def d04(progs, rep):
    E = Tex(progs, rep)
    I = E.I
    lv = E.levels()
    if not rep.need(len(E.me) == 1 and E.show is not None and lv, 'entry', 'trees have a TeX form'):
        return
    ops = {('infix', w): E.op('infix_map', w) for w in sorted(lv)}
    for kind in ('prefix', 'suffix'):
        for w in E.ops(kind.capitalize()):
            ops[kind, w] = E.op(kind + '_map', w)

    def each(v, vals, key, what, more=None):
        """vals: the operands in order"""
        n = 0
        for st, ps in E.texts(v):
            if not rep.need(ps is not None, key, 'the TeX form of %s does not panic' % what):
                continue
            n += 1
            t = flat(ps, vals)
            if not rep.need(t is not None, key, 'the TeX form of %s shows nothing but its operands (%s)' % (what, brief(ps))):
                continue
            holes = [ord(c) - HOLE for c in t if HOLE <= ord(c) < HOLE + 99]
            rep.need(holes == list(range(len(vals))), key + ' operands', 'the TeX form of %s shows every operand once and in order (%s)' % (what, human(t)))
            u = unbalanced(t)
            rep.need(u is None, key + ' delimiters', 'the delimiters in the TeX form of %s are paired (%s in %s)' % (what, u, human(t)))
            if more:
                more(t, what)
        rep.need(n, key, '%s has a TeX form' % what)

    def gaps(t, n):
        """texts before, between and after the n operands"""
        out, cur = [], ''
        for c in t:
            if HOLE <= ord(c) < HOLE + 99:
                out.append(cur)
                cur = ''
            else:
                cur += c
        return out + [cur]

    # operands: what decides about parentheses is how they are printed
    forms = [('a symbol', lambda i: E.leaf('x%d' % i)),
             ('a sum', lambda i: E.node(ops['infix', '+'], ([E.leaf('l%d' % i), E.leaf('r%d' % i)], [])))]
    for k, w in sorted(ops):
        if k != 'infix':
            forms.append(('%s %s' % (k, w), lambda i, k=k, w=w: E.node(ops[k, w], ([E.leaf('l%d' % i)], []))))
    forms.append(('a call', lambda i: E.node(E.record(E.SYM, name_space=('seq', ()), name=S('g')), ([E.leaf('l%d' % i)], []), ([], []))))
    forms.append(('an empty statement', lambda i: E.ast('EmptyStatement')))

    for (kind, w), sym in sorted(ops.items()):
        d = E.S.adt(sym, St(), E.SYM, None, 'symbol')
        name = E.S.lit(d['name'], St())

        def go():
            key = '%s %s' % (kind, w)

            def shown(t, what):
                g = gaps(t, 0)
                if kind == 'infix':
                    if len(g) < 3:
                        return
                    rep.need(all(x.strip() in (w, name) or name == 'times' and x and not x.strip() for x in g[1:-1])
                             or '\\' in ''.join(g), key + ' operator', 'the TeX form of %s shows the operator between every two operands (%s)' % (what, human(t)))
                else:
                    x = g[0] if kind == 'prefix' else g[-1]
                    rep.need(w in x or name in ''.join(g), key + ' operator', 'the TeX form of %s shows the operator at its side of the operand (%s)' % (what, human(t)))
            for m in ((2, 3, 4) if kind == 'infix' else (1,)):
                xs = [E.leaf('x%d' % i) for i in range(m)]
                each(E.node(sym, (xs, [])), xs, key, '%s %s with %d operands' % (kind, w, m), shown)
            for fn, f in forms:
                for i in range(2 if kind == 'infix' else 1):
                    xs = [E.leaf('x%d' % j) for j in range(2 if kind == 'infix' else 1)]
                    xs[i] = f(9)
                    each(E.node(sym, (xs, [])), xs, key, '%s %s with operand %d being %s' % (kind, w, i + 1, fn), shown)
        guarded(rep, '%s %s' % (kind, w), 'the TeX form of %s %s' % (kind, w), go)

    shapes = [((a, o),) for a in range(4) for o in range(2)] + [((1, 0), (0, 0)), ((1, 0), (1, 0)), ((2, 0), (2, 0)), ((2, 1), (1, 0)), ((1, 1), (0, 0), (2, 1))]

    def built(sym, shape, first=None):
        vals, lists = [], []
        for a, o in shape:
            xs = [E.leaf('x%d' % (len(vals) + i)) for i in range(a)]
            if first is not None and xs and not vals:
                xs[0] = first
            vals += xs
            ks = []
            for i in range(o):
                k, v = E.leaf('x%d' % len(vals)), E.leaf('x%d' % (len(vals) + 1))
                vals += [k, v]
                ks.append((k, v))
            lists.append((xs, ks))
        return E.node(sym, *lists), vals

    def separated(shape, name):
        def f(t, what):
            g = gaps(t, 0)
            i = 0
            if len(shape) > 1:
                rep.need(t.count('(') >= len(shape), 'call lists', 'the TeX form of %s shows every list of arguments (%s)' % (what, human(t)))
            for a, o in shape:
                for j in range(a + 2 * o):
                    if j:
                        sep = ':' if j >= a and (j - a) % 2 else ','
                        rep.need(g[i].strip() == sep, 'call separators', 'the TeX form of %s separates its operands (%s)' % (what, human(t)))
                    i += 1
            if shape == ((1, 0),) and name not in ('List',) and what.endswith(('a sum', "suffix !")):
                rep.need('(' in g[0], 'call grouping', 'the TeX form of %s keeps its argument together (%s)' % (what, human(t)))
            rep.need(name == 'List' and '{' in g[0] or name in g[0], 'call name', 'the TeX form of %s begins with the name of the function (%s)' % (what, human(t)))
        return f

    names = ['f', 'sin', 'cos', 'tan', 'cot', 'sec', 'csc', 'arcsin', 'arccos', 'arctan', 'arccot', 'arcsec', 'arccsc', 'arcsinh', 'arccosh',
             'arctanh', 'arccoth', 'arcsech', 'arccsch', 'List', 'Dict', 'factor']

    def calls():
        for name in names:
            sym = E.record(E.SYM, name_space=('seq', ()), name=S(name), kind=('adt', E.KIND, I.variant(E.KIND, 'Normal'), ()))
            for shape in shapes:
                what = '%s with %s' % (name, ', '.join('%d arguments and %d options' % s for s in shape))
                v, vals = built(sym, shape)
                each(v, vals, 'call ' + name, what, separated(shape, name))
                if shape[0][0] and len(shape) == 1:
                    for fn, f in forms:
                        v, vals = built(sym, shape, f(9))
                        each(v, vals, 'call ' + name, what + ', the first being ' + fn, separated(shape, name))
    guarded(rep, 'call', 'the TeX form of calls', calls)

    def opcalls():
        for (kind, w), sym in sorted(ops.items()):
            for shape in shapes:
                if len(shape) == 1 and not shape[0][1] and shape[0][0] > (1 if kind == 'infix' else 0):
                    continue
                v, vals = built(sym, shape)
                each(v, vals, 'called operator', '%s %s called with %s' % (kind, w, ', '.join('%d arguments and %d options' % s for s in shape)))
    guarded(rep, 'called operator', 'the TeX form of operators that are called like functions', opcalls)

    def anyname():
        """whatever the function is called"""
        for shape in shapes[:6] + shapes[-2:]:
            sym = E.record(E.SYM, name_space=('seq', ()), kind=('adt', E.KIND, I.variant(E.KIND, 'Normal'), ()))
            nm = E.get(E.S.adt(sym, St(), E.SYM, None, 'symbol')['name'], St())
            v, vals = built(sym, shape)
            what = 'any function with %s' % ', '.join('%d arguments and %d options' % s for s in shape)
            for st, ps in E.texts(v):
                if not rep.need(ps is not None, 'call', 'the TeX form of %s does not panic' % what):
                    continue
                ps = tuple('f' if isinstance(p, tuple) and ('str', (p,)) == I.tnorm(st, nm) else p for p in ps)
                t = flat(ps, vals)
                rep.need(t is not None and [ord(c) - HOLE for c in t if HOLE <= ord(c) < HOLE + 99] == list(range(len(vals))), 'call operands',
                         'the TeX form of %s shows every operand once and in order (%s)' % (what, human(t) if t is not None else brief(ps)))
                rep.need(t is None or unbalanced(t) is None, 'call delimiters', 'the delimiters in the TeX form of %s are paired' % what)
    guarded(rep, 'call', 'the TeX form of any function', anyname)

    for vi, var in enumerate(I.types[E.AST]['variants']):
        nm = var['name']
        if nm == 'Function':
            continue

        def atom():
            v = I.expanded(('o', ('x',), E.AST), vi)
            f = v[3][0] if v[3] else None
            for st, ps in E.texts(v):
                if not rep.need(ps is not None, nm, 'the TeX form of a %s does not panic' % nm):
                    continue
                lit = ''.join(p for p in ps if isinstance(p, str))
                rep.need(unbalanced(lit) is None, nm, 'the delimiters in the TeX form of a %s are paired (%s)' % (nm, brief(ps)))
                vs = tuple(p for p in ps if not isinstance(p, str))
                g = E.get(f, st) if f is not None else None
                if nm == 'EmptyStatement':
                    good = ps == ()
                elif nm == 'Boolean':
                    bs = [b for _, b in I.truth(st, g)]
                    good = len(bs) == 1 and ('true' in lit) == bs[0] and ('false' in lit) != bs[0] and not vs
                elif nm == 'Integer':
                    good = ps == (('dec', g),)
                elif nm in ('Decimal', 'String'):
                    good = ('str', vs) == g or vs == (('disp', g),)
                elif nm == 'Symbol':
                    s = I.expanded(g, 0) if g[0] == 'o' else g
                    n = E.get(E.S.adt(s, st, E.SYM, None, 'symbol')['name'], st)
                    good = ps[len(ps) - len(n[1]):] == n[1] or is_name_text(E, st, g, ps)
                else:
                    good = True
                    lo = I.ints(st, I.length(st, g))[:2]
                    if lo != (0, 0):
                        src = [p[1] for p in I.parts(st, g)]
                        good = len(vs) == 1 and vs[0][0] == 'join' and bool(flow.litof(vs[0][2])) and [p[1] for p in vs[0][1]] == src \
                            and all(p[0] == 'm' and len(p[2]) == 1 and not p[2][0][0] and p[2][0][1] == (('e', ('str', (('disp', I.el(p[1])),))),) for p in vs[0][1])
                rep.need(good, nm, 'the TeX form of a %s shows its value (%s)' % (nm, brief(ps)))
        guarded(rep, nm, 'the TeX form of a ' + nm, atom)

    def many():
        """any number of arguments and options, and of lists of them"""
        P = E.record(E.PAR)
        fs = dict(zip([f[0] for f in I.types[E.PAR]['variants'][0]['fields']], P[3]))
        sym = E.record(E.SYM, name_space=('seq', ()), name=S('f'), kind=('adt', E.KIND, I.variant(E.KIND, 'Normal'), ()))
        outs = []
        try:
            outs = E.texts(E.ast('Function', sym, ('seq', (('e', P),))))
        except Giveup as e:
            rep.info['any number of arguments'] = 'not decided (%s); up to 3 arguments and 1 option are' % str(e)[:120]
        for st, ps in outs:
            if rep.need(ps is not None, 'call', 'the TeX form of a call does not panic, whatever its arguments'):
                qs = tuple(p for p in ps if not isinstance(p, str))
                rep.need(unbalanced(''.join(p for p in ps if isinstance(p, str))) is None, 'call delimiters', 'the delimiters around any list of arguments are paired')
                rep.need(list_text(E, st, ('f(',) + qs + (')',), fs), 'call operands', 'the TeX form of a call shows all its arguments and options, in order (%s)' % brief(ps))
    guarded(rep, 'call', 'the TeX form of a call with any arguments', many)
    rep.funcs |= set(I.funcs)
