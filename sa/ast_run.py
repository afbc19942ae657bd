"""The tree builder, token by token (properties B06-B09).

From `ParserSettings::parse` every builder function is run on an arbitrary
token of every rule it can be given; calls on a child of that token are taken
by their contract (they return the tree of the child), which is the obligation
of that function and rule."""
import os, traceback
import flow, flowlib
import text as T
from flow import Giveup, Out, RET, PANIC, St, S
from ast_specs import Ast
from ast_sem import Sem, Mis, LITERAL, brief, sep_lang


class Builder:
    def __init__(self, progs, rep, pos=False):
        self.A = Ast(progs, rep)
        self.rep, self.pos = rep, pos
        self.todo, self.seen = [], set()
        self.I = self.A.flow(self.cut)
        self.I.invariant = self.invariant
        self.S = Sem(self.A, self.I, pos)
        self.AST, self.PAR, self.SYM = self.S.AST, self.S.PAR, self.S.SYM
        self.F = self.I.variant(self.AST, 'Function')
        self.outcomes = 0
        self.syms = set()

    # every Function the builder makes has at least one list of arguments (checked on every tree)
    def invariant(self, I, st, v, vi):
        if v[2] == self.AST and vi == self.F and isinstance(v[1], tuple) and v[1][0] in ('den', 'lhs', 'rhs'):
            o = I.expanded(v, vi)
            for f in o[3]:
                if f[0] == 'seq' and len(f[1]) == 1:
                    st.facts[('iv', ('len', f[1][0]))] = (1, (1 << 63) - 1, frozenset())

    def cut(self, I, inst, args, st, rty):
        b = I.P.bodies[inst]
        if b['crate'] != 'sm_ast' or '{closure' in b['name'] or rty is None:
            return None
        if rty == self.SYM and len(args) == 1 and b['name'].endswith('::from'):
            v = I.D(st, args[0])
            if v[0] == 'str':
                t = I.tnorm(st, v)
                n = self.S.symbol_text(t)
                if n is not None:
                    self.syms.add(inst)
                    return [Out(RET, st, ('o', ('sym', n), rty))]
            return None
        if rty != self.AST:
            return None
        ps = []
        for a in args:
            v = I.D(st, a)
            if v[0] == 'pair':
                ps.append(v)
            elif not (v[0] == 'o' and v[1] == ('self',)) and v != ('settings',):
                return None
        if len(ps) != 1 or ps[0][1] == ('p',):
            return None
        self.want(inst, ps[0][2])
        return [Out(RET, st, ('o', ('den', ps[0][2], ps[0][1]), rty))]

    def want(self, inst, rule):
        if (inst, rule) not in self.seen:
            self.seen.add((inst, rule))
            self.todo.append((inst, rule))

    def args(self, inst, rule, st):
        I = self.I
        b = I.P.bodies[inst]
        out = []
        for k in range(b['body']['argc']):
            ty = b['body']['locals'][k + 1]
            out.append(('pair', ('p',), rule) if I.last(ty) == 'Pair' else I.opaque(('self',), ty))
        return out

    def entry(self):
        """parse: the outcomes and what they must be"""
        A = self.A
        es = [i for i in A.find('::parse') if 'ParserSettings' in A.P.bodies[i]['name'] and A.P.bodies[i]['body']['argc'] == 2]
        if not self.rep.need(len(es) == 1, 'entry', 'ParserSettings::parse is the entry point of the tree builder'):
            return []
        I = self.I
        b = I.P.bodies[es[0]]
        st = St()
        args = [I.opaque(('self',) if k == 0 else ('arg', k), b['body']['locals'][k + 1]) for k in range(2)]
        return I.call_body(es[0], args, st)

    def run(self):
        """yields (kind, where, payload): ('entry', ...), ('fn', (inst, rule), outcomes)"""
        yield 'entry', None, self.entry()
        while self.todo:
            inst, rule = self.todo.pop()
            try:
                st = St()
                outs = self.I.call_body(inst, self.args(inst, rule, st), st)
            except Giveup as e:
                yield 'giveup', (inst, rule), str(e)
                continue
            except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
                if 'SA_TRACE' in os.environ:
                    traceback.print_exc()
                yield 'giveup', (inst, rule), 'a construct the interpreter does not know (%s: %s)' % (type(e).__name__, e)
                continue
            yield 'fn', (inst, rule), outs

    def name(self, inst):
        return self.I.P.bodies[inst]['name']


def deepest(st, rule):
    """rule of the innermost token that the facts speak about"""
    best = (0, rule)
    for k, v in st.facts.items():
        if k[0] == 'rule':
            d = depth(k[1])
            if d > best[0]:
                best = (d, v)
    return best[1]


def depth(n):
    return 1 + max((depth(x) for x in n if isinstance(x, tuple)), default=0) if isinstance(n, tuple) else 0


def where(B, inst, rule):
    return '%s on a %s token' % (short(B.name(inst)), rule)


def short(n):
    return n.split('::')[-1] if '{' not in n else '::'.join(n.split('::')[-2:])


def at(o):
    return (o.span or '').split('/')[-1]


def two_seps(A):
    """may a Symbol token contain the separator ∷"""
    L = A.langs.get('Symbol')
    s = ('star', ('set', T.sigma()))
    return not T.empty(T.inter(L, T.rx(('seq', [s, ('sym', T.symof('∷')), s]))))


def entry_tree(B, outs, rep):
    """what ParserSettings::parse returns is the tree of an expression of the text it is given"""
    I = B.I
    whole = ('root', ('str', (('t', ('arg', 1)),)))
    res = None
    for o in outs:
        if o.kind != RET:
            continue
        v = B.S.get(o.val, o.st)
        seen = any(k[0] == 'rule' and r == 'expression' and of_root(k[1], whole) for k, r in o.st.facts.items())
        if v[0] != 'adt' or I.types[v[1]]['variants'][v[2]]['name'] not in ('Ok', 'Err'):
            rep.bad('undecided entry', 'result of ParserSettings::parse: %s' % brief(v))
            continue
        if I.types[v[1]]['variants'][v[2]]['name'] == 'Err':
            rep.need(not seen, 'entry', 'a text with an expression is not an error')
            continue
        x = B.S.get(v[3][0], o.st)
        empty = not seen and x[0] == 'adt' and x[1] == B.AST and not x[3]
        good = empty
        if x[0] == 'o' and x[1][0] == 'den' and x[1][1] == 'expr':
            good = of_root(x[1][2], whole)
        rep.need(good, 'entry', 'ParserSettings::parse returns the tree of an expression of its text (%s)' % brief(x))


def of_root(n, whole):
    while isinstance(n, tuple) and n[0] in ('k', 'el', 'seg', 'slice', 'rev'):
        n = n[1]
    return n == whole


def explore(progs, rep, pos=False):
    B = Builder(progs, rep, pos)
    B.A.two_seps = two_seps(B.A)
    got = list(B.run())
    rep.funcs |= set(B.I.funcs)
    return B, got


def undecided(B, x, w, rep, mine=lambda r: True):
    if mine(w[1]):
        rep.bad('undecided %s %s' % (short(B.name(w[0])), w[1]), '%s cannot be interpreted: %s' % (where(B, *w), x[:400]))


def b06(progs, rep):
    B, got = explore(progs, rep)
    fns = 0
    for kind, w, x in got:
        if kind == 'giveup':
            undecided(B, x, w, rep)
            continue
        rule = w[1] if w else 'program'
        text = where(B, *w) if w else 'ParserSettings::parse'
        n = 0
        for o in x:
            rep.paths += 1
            if o.kind == RET:
                n += 1
                continue
            r = deepest(o.st, rule)
            rep.bad('panic on %s' % r, '%s panics for a %s token (%s)' % (text, r, at(o)))
        rep.good('%s: %d outcomes without panic' % (text, n))
        fns += 1
    rep.info['tokens'] = fns


def trees(progs, rep, literal):
    B, got = explore(progs, rep)
    SM = B.S
    mine = (lambda r: r in LITERAL) if literal else (lambda r: r not in LITERAL)
    failed = False
    for kind, w, x in got:
        if kind == 'entry':
            if not literal:
                entry_tree(B, x, rep)
            continue
        if kind == 'giveup':
            undecided(B, x, w, rep, mine)
            failed = True
            continue
        rule = w[1]
        for o in x:
            if o.kind != RET:
                continue
            rep.paths += 1
            SM.stack = []
            try:
                SM.den(rule, ('p',))(o.val, o.st)
                if mine(rule):
                    rep.good('%s: the tree is the one the token denotes' % where(B, *w))
            except Mis as e:
                failed = True
                if not e.pos and mine(e.rule):
                    rep.bad('tree of %s' % e.rule, '%s: tree of %s: %s' % (where(B, *w), e.rule, e.msg))
            except Giveup as e:
                failed = True
                if mine(rule):
                    rep.bad('undecided tree of %s' % rule, '%s: %s' % (where(B, *w), str(e)[:300]))
    if literal:
        symbols(B, rep)
    else:
        for r, m in SM.tables():
            rep.bad('operator %s' % m, m)
        for tab, what in ((SM.infix, 'infix'), (SM.prefix, 'prefix'), (SM.suffix, 'suffix')):
            rep.info[what + ' operators'] = {str(w): sorted(map(str, ns)) for (_, w), ns in sorted(tab.items(), key=repr)}
            if not failed:
                rep.need(tab, 'no %s operators' % what, '%s operators reach the tree' % what)
    rep.info['tokens'] = len(B.seen)


def symbols(B, rep):
    """every conversion of a symbol path to a Symbol splits at the separators"""
    I = B.I
    for inst in sorted(B.syms):
        b = I.P.bodies[inst]
        ty = b['body']['locals'][1]
        for rule in ('Symbol', 'SYMBOL'):
            n = ('text', ('p',), rule)
            arg = ('str', (('t', n),))
            st = St()
            if not is_str(I, ty):
                rep.bad('undecided symbol', '%s: argument type' % b['name'])
                continue
            try:
                B.cutting = False
                I.cut = None
                outs = I.call_body(inst, [arg], st)
            except Giveup as e:
                rep.bad('undecided symbol', '%s: %s' % (b['name'], e))
                continue
            finally:
                I.cut = B.cut
            for o in outs:
                if o.kind != RET:
                    rep.bad('panic of symbol', '%s panics (%s)' % (b['name'], at(o)))
                    continue
                B.S.stack = [rule]
                try:
                    B.S.symbol_of(o.val, o.st, lambda t: t == n)
                    rep.good('%s: a %s token is split into name space and name' % (b['name'], rule))
                except Mis as e:
                    rep.bad('tree of %s' % rule, '%s on the text of a %s token: %s' % (b['name'], rule, e.msg))
                except Giveup as e:
                    rep.bad('undecided symbol', '%s: %s' % (b['name'], e))


def is_str(I, ty):
    t = I.types[ty]
    while t['k'] in ('ref', 'ptr'):
        t = I.types[t['el']]
    return t['k'] == 'str' or 'String' in str(t.get('adt'))


def b07(progs, rep):
    trees(progs, rep, False)


def b08(progs, rep):
    trees(progs, rep, True)


def b09(progs, rep):
    B, got = explore(progs, rep, True)
    for kind, w, x in got:
        if kind == 'entry':
            continue
        if kind == 'giveup':
            undecided(B, x, w, rep)
            continue
        for o in x:
            if o.kind != RET:
                continue
            rep.paths += 1
            B.S.stack = []
            try:
                B.S.den(w[1], ('p',))(o.val, o.st)
                rep.good('%s: positions are those of the tokens' % where(B, *w))
            except Mis as e:
                if e.pos:
                    rep.bad('position of %s' % e.rule, '%s: position of %s: %s' % (where(B, *w), e.rule, e.msg))
            except Giveup as e:
                rep.bad('undecided tree of %s' % w[1], '%s: %s' % (where(B, *w), str(e)[:300]))
