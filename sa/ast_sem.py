"""What every grammar rule denotes as a tree (properties B06-B09).

The tree builder is run by the interpreter of flow.py on an arbitrary token of
each rule; `Sem` decides whether a resulting value is the tree that the rule
stands for.  It looks at values, not at how the builder computed them: builder
calls on child tokens are ('den', rule, token), and where a value was built in
line instead the comparison descends into the rule of the child."""
import flow, flowlib
import text as T
from flow import Giveup, Out, RET, PANIC, St, S, base_src, root_src

LITERAL = {'Integer', 'Decimal', 'Byte', 'String', 'StringNormal', 'StringBlock', 'Special', 'REPL', 'Slot', 'Symbol', 'SYMBOL'}
INFIX = {'Plus': 'add', 'Minus': 'subtract', 'Multiply': 'times', 'Divide': 'divide', 'Quotient': 'quotient', 'Power': 'power'}
PREFIX = {'+': 'plus', '-': 'minus', '*': 'unpack', '!': 'not', '¬': 'not'}
SUFFIX = {'!': 'factorial', '!!': 'factorial2'}


class Mis(Exception):
    """the value is not what the construct denotes"""

    def __init__(self, rule, msg, pos=False):
        Exception.__init__(self, msg)
        self.rule, self.msg, self.pos = rule, msg, pos


def brief(v, n=160):
    s = show(v)
    return s if len(s) < n else s[:n] + '...'


def show(v):
    if not isinstance(v, tuple) or not v:
        return repr(v)
    if v[0] == 'str':
        return '+'.join(repr(p) if isinstance(p, str) else show(p) for p in v[1]) or "''"
    if v[0] == 'i':
        return str(v[1])
    if v[0] == 't':
        return show(v[1])
    if v[0] == 'text':
        return 'text(%s)' % v[2]
    if v[0] == 'o' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'den':
        return 'tree(%s)' % v[1][1]
    if v[0] == 'o':
        return show(v[1])
    if v[0] in ('lhs', 'rhs'):
        return v[0]
    if v[0] == 'seq':
        return '[' + ', '.join(show(p[1]) if p[0] == 'e' else 'each(..)' for p in v[1]) + ']'
    if v[0] == 'adt':
        return '{%s}' % ', '.join(show(f) for f in v[3])
    if v[0] == 'tup':
        return '(' + ', '.join(map(show, v[1])) + ')'
    return repr(v)


class Sem:
    def __init__(self, A, I, pos=False):
        self.A, self.I, self.pos = A, I, pos
        self.AST, self.SYM = I.find_adt('AST'), I.find_adt('Symbol')
        self.KIND, self.PAR, self.POS = I.find_adt('SymbolKind'), I.find_adt('Parameter'), I.find_adt('Position')
        self.infix, self.prefix, self.suffix = {}, {}, {}
        self.stack = []
        self.checks = 0

    # ---------------------------------------------------------- tools
    def bad(self, msg):
        raise Mis(self.stack[-1] if self.stack else '?', msg)

    def get(self, v, st):
        v = self.I.D(st, v)
        if v[0] == 'box':
            return self.get(v[1], st)
        if v[0] == 'o':
            f = st.facts.get(('exp', v[1]))
            if f is not None:
                return self.I.expanded(v, f)
        return v

    def adt(self, v, st, tid, variant, what):
        v = self.get(v, st)
        if v[0] != 'adt' or v[1] != tid or (variant is not None and v[2] != self.I.variant(tid, variant)):
            self.bad('%s expected, found %s' % (what, brief(v)))
        names = [f[0] for f in self.I.types[tid]['variants'][v[2]]['fields']]
        return dict(zip(names, v[3]))

    def text(self, v, st):
        v = self.get(v, st)
        if v[0] != 'str':
            self.bad('a text expected, found %s' % brief(v))
        return self.I.tnorm(st, v)

    def lit(self, v, st):
        return flow.litof(self.text(v, st))

    def forks(self, st, name, rule):
        """[(state, parts)]: the children of a token, as the grammar allows them under the facts"""
        return flowlib.inner(self.I, st, ('pair', name, rule))

    def seq(self, v, st, plan, what):
        """plan: ('e', check) | ('seg', part, emit) with emit(rule, name, state) -> [(state, [check])]"""
        v = self.get(v, st)
        if v[0] != 'seq':
            self.bad('%s: a sequence expected, found %s' % (what, brief(v)))
        ps = list(v[1])
        for it in plan:
            if it[0] == 'e':
                if not ps or ps[0][0] != 'e':
                    self.bad('%s: an element is missing or out of order' % what)
                it[1](ps.pop(0)[1], st)
                continue
            part, emit = it[1], it[2]
            src = part[1]
            sub = []
            some = False
            for r in root_src(src)[3]:
                el = ('el', base_src(src))
                s = flowlib.with_facts(self.I, st, [(('rule', el), r)])
                if s is None:
                    continue
                for s2, cs in emit(r, el, s):
                    sub.append((s2, cs))
                    some = some or bool(cs)
            got = ()
            if ps and ps[0][0] == 'm' and ps[0][1] == src:
                got = ps.pop(0)[2]
            elif some:
                self.bad('%s: the elements for %s are missing or out of order' % (what, '/'.join(root_src(src)[3])))
            for s2, cs in sub:
                hit = False
                for c, q in got:
                    s3 = flowlib.with_facts(self.I, s2, c)
                    if s3 is None:
                        continue
                    hit = True
                    if len(q) != len(cs) or any(x[0] != 'e' for x in q):
                        self.bad('%s: %d elements where %d are expected' % (what, len(q), len(cs)))
                    for x, ck in zip(q, cs):
                        ck(x[1], s3)
                if cs and not hit:
                    self.bad('%s: an element is dropped' % what)
        for p in ps:
            if p[0] == 'm' and not any(q for c, q in p[2] if flowlib.with_facts(self.I, st, c) is not None):
                continue
            self.bad('%s: additional elements' % what)

    # ---------------------------------------------------------- positions
    def position(self, v, st, name):
        if not self.pos:
            return
        f = self.adt(v, st, self.POS, None, 'a position')
        r = self.stack[-1]

        def no(m):
            raise Mis(r, m, True)
        w = self.text(f['file'], st)
        if not (len(w[1]) == 1 and isinstance(w[1][0], tuple) and w[1][0][0] == 't' and self.is_file(w[1][0][1])):
            no('the position does not name the file of the parser settings')
        for k, end in (('start', 'Span::start_pos'), ('end', 'Span::end_pos')):
            t = self.get(f[k], st)
            for i in (0, 1):
                x = self.I.nrm(st, self.get(t[1][i], st)) if t[0] == 'tup' else None
                if not (x and x[0] == 'n' and x[1] == 0 and self.corner(x[2], i, end, name)):
                    no('%s of the position is not the %s %s of the token' % (k, k, ('line', 'column')[i]))

    def is_file(self, n):
        """field `file` of the settings"""
        tid = self.I.find_adt('ParserSettings')
        i = [f[0] for f in self.I.types[tid]['variants'][0]['fields']].index('file')
        return n == ('fd', ('self',), 0, i)

    def corner(self, n, i, end, name):
        try:
            fd, lc, z, k = n
            ap, fn, (p,) = lc
            o, (ap2, fn2, (sp,)), _ = p
            o2, (s, nm, r), _ = sp
        except (ValueError, TypeError):
            return False
        return (fd, z, k, ap, fn, ap2, fn2, s) == ('fd', 0, i, 'ap', 'Position::line_col', 'ap', end, 'span') and nm == name

    # ---------------------------------------------------------- trees
    def function(self, v, st, sym, params, what):
        """params: list of checks (or a plan with ('seg', ...))"""
        f = self.get(v, st)
        if f[0] != 'adt' or f[1] != self.AST or f[2] != self.I.variant(self.AST, 'Function'):
            self.bad('%s is not a function application: %s' % (what, brief(f)))
        if not any(not (isinstance(p, tuple) and p[0] == 'seg') or root_src(p[1][1])[4] for p in params):
            raise Giveup('%s may have no arguments at all' % what)
        sym(f[3][0], st)
        self.seq(f[3][1], st, [p if isinstance(p, tuple) else ('e', p) for p in params], what)

    def param(self, args, opts, at):
        """check of a Parameter; args: plan, opts: plan of (key, value) pairs; at: name of the token it is positioned at"""
        def ck(v, st):
            f = self.adt(v, st, self.PAR, None, 'a parameter')
            self.seq(f['arguments'], st, args, 'arguments')
            o = self.get(f['options'], st)
            if o[0] != 'map' or o[1] is not None:
                self.bad('options expected, found %s' % brief(o))
            self.seq(('seq', o[2]), st, opts, 'options')
            self.position(f['position'], st, at)
        return ck

    def path_sym(self, path):
        """a plain symbol given by its constant path"""
        ws = path.split('::')

        def ck(v, st):
            f = self.adt(v, st, self.SYM, None, 'a symbol')
            self.seq(f['name_space'], st, [('e', self.const(w)) for w in ws[:-1]], 'name space')
            self.const(ws[-1])(f['name'], st)
        return ck

    def const(self, w):
        def ck(v, st):
            x = self.lit(v, st)
            if x != w:
                self.bad('%r expected, found %s' % (w, brief(self.text(v, st))))
        return ck

    def named(self, name):
        """the symbol named by the text of a token"""
        def ck(v, st):
            v = self.get(v, st)
            if v == ('o', ('sym', name), self.SYM):
                return
            if v[0] == 'o':
                self.bad('the symbol of another text: %s' % brief(v))
            self.symbol_of(v, st, lambda t: t == name)
        return ck

    def symbol_of(self, v, st, is_name):
        """v is the symbol whose path is the text named so: components between '::' or '∷', last one the name"""
        f = self.adt(v, st, self.SYM, None, 'a symbol')
        n = self.text(f['name'], st)
        if self.words(n, is_name):
            # the text itself: only for texts without separator
            for p in n[1]:
                L = self.I.tlang(st, p[1])
                if not T.empty(T.inter(L, sep_lang())):
                    self.bad('the name of a qualified symbol keeps its name space')
            ns = self.get(f['name_space'], st)
            if ns[0] != 'seq' or ns[1]:
                self.bad('name space of an unqualified name')
            return
        p = n[1][0] if len(n[1]) == 1 else None
        ok = isinstance(p, tuple) and p[0] == 't' and isinstance(p[1], tuple) and p[1][0] == 'at' and p[1][2] == -1
        src = p[1][1] if ok else None
        if not ok or not self.components(src, is_name):
            self.bad('the name is not the last component of the path: %s' % brief(n))
        ns = self.get(f['name_space'], st)
        if ns[0] != 'seq' or ns[1] != (self.I.ident(('slice', src, 0, 1)),):
            self.bad('the name space is not the components before the last one: %s' % brief(ns))
        k = self.get(f['kind'], st)
        if k[0] != 'adt' or k[2] != self.I.variant(self.KIND, 'Normal'):
            self.bad('kind of a plain symbol')

    def words(self, n, is_name):
        return len(n[1]) == 1 and isinstance(n[1][0], tuple) and n[1][0][0] == 't' and is_name(n[1][0][1])

    def components(self, src, is_name):
        """src splits the named text at its separators"""
        if not (isinstance(src, tuple) and src[0] == 'split' and src[2] == '::'):
            return False
        t = src[1]
        if self.words(t, is_name):
            return not self.A.two_seps
        x = t[1][0] if len(t[1]) == 1 and isinstance(t[1][0], tuple) else None
        if x and x[0] == 't' and isinstance(x[1], tuple) and x[1][:2] == ('ap', 'str::replace'):
            a = x[1][2]
            return self.words(a[0], is_name) and a[1] in (('ch', '∷'), S('∷')) and a[2] == S('::')
        return False

    def operator(self, name, rule, ns, kind, table):
        """symbol of an operator token: collects (rule, spelling) -> names"""
        def ck(v, st):
            f = self.adt(v, st, self.SYM, None, 'an operator symbol')
            self.seq(f['name_space'], st, [('e', self.const(w)) for w in ns], 'name space')
            k = self.get(f['kind'], st)
            if k[0] != 'adt' or k[1] != self.KIND or k[2] != self.I.variant(self.KIND, kind):
                self.bad('%s operator of the kind %s' % (kind, brief(k)))
            L = self.I.tlang(st, ('text', name, rule))
            ws = T.words(L, 12)
            o = self.text(k[3][0], st)
            if not self.is_text(o, st, name, rule):
                self.bad('the operator does not keep its spelling: %s' % brief(o))
            n = self.text(f['name'], st)
            x = flow.litof(n)
            if x is None and not self.is_text(n, st, name, rule):
                self.bad('name of the operator: %s' % brief(n))
            if ws is None:
                if x is not None:
                    self.bad('one name for all spellings of %s' % rule) if rule not in ('Suffix',) else None
                table.setdefault((rule, None), set()).add(x)
            for w in ws or ():
                table.setdefault((rule, w), set()).add(w if x is None else x)
        return ck

    def is_text(self, v, st, name, rule):
        if v == self.I.tnorm(st, ('str', (('t', ('text', name, rule)),))):
            return True
        return False

    def den(self, rule, name):
        """check: the value is the tree of this token"""
        def ck(v, st):
            v = self.get(v, st)
            if v[0] == 'o' and v[1] == ('den', rule, name):
                return
            self.stack.append(rule)
            self.checks += 1
            f = getattr(self, 'r_' + rule, None)
            if f is None:
                self.bad('a tree for rule %s: %s' % (rule, brief(v)))
            f(v, st, name)
            self.stack.pop()
        return ck

    def acc(self, v, st):
        if self.get(v, st) not in (('o', ('a', 0), self.AST),):
            self.bad('the operand of an operator is not the term so far: %s' % brief(v))

    # rules
    def one(self, v, st, name, rule, skip=()):
        """rules that stand for their only child"""
        for s, ps in self.forks(st, name, rule):
            cs = [p for p in ps if not (p[0] == 'e' and p[1][2] in skip)]
            if len(cs) != 1 or cs[0][0] != 'e':
                raise Giveup('children of %s' % rule)
            self.den(cs[0][1][2], cs[0][1][1])(v, s)

    def r_expression(self, v, st, name):
        self.one(v, st, name, 'expression', ('eos',))

    def r_node(self, v, st, name):
        self.one(v, st, name, 'node')

    def r_data(self, v, st, name):
        self.one(v, st, name, 'data')

    def r_Start(self, v, st, name):
        self.one(v, st, name, 'Start')

    def r_End(self, v, st, name):
        self.one(v, st, name, 'End')

    def r_Step(self, v, st, name):
        self.one(v, st, name, 'Step')

    def r_expr(self, v, st, name):
        v = self.get(v, st)
        if v[0] != 'o' or v[1][:2] != ('climb', name):
            self.bad('the operator tree of another token: %s' % brief(v))
        tab = v[1][2]
        for s, ps in self.forks(st, name, 'expr'):
            if tuple(ps) != v[1][3]:
                self.bad('the operators and operands are not taken as they stand: %s' % brief(v[1][3]))
        for r in {x[0] for x in tab}:
            nm = ('c', name, r)
            for _, cond, val in [x for x in tab if x[0] == r]:
                s = flowlib.with_facts(self.I, st, cond)
                if s is None:
                    continue
                if r not in self.A.ops:
                    self.den(r, nm)(val, s)
                elif r == 'Dot':
                    self.dot(val, s, name)
                else:
                    ar = [('e', self.side('lhs', name)), ('e', self.side('rhs', name))]
                    self.function(val, s, self.operator(nm, r, ('std', 'infix'), 'Infix', self.infix),
                                  [self.param(ar, [], name)], 'a %s b' % r)

    def side(self, w, name):
        def ck(v, st):
            x = self.I.D(st, v)
            if x == ('o', (w, name), self.AST):
                return
            o = ('o', (w, name), self.AST)
            f = st.facts.get(('exp', o[1]))
            if f is None or x != self.I.expanded(o, f):
                self.bad('the %s operand is %s' % ({'lhs': 'left', 'rhs': 'right'}[w], brief(x)))
        return ck

    def dot(self, v, st, name):
        I = self.I
        o = ('o', ('rhs', name), self.AST)
        f = st.facts.get(('exp', o[1]))
        lhs = ('e', self.side('lhs', name))
        vs = [x['name'] for x in I.types[self.AST]['variants']]
        cases = [f] if f is not None else [i for i in range(len(vs)) if i not in st.facts.get(('nexp', o[1]), ())]
        for i in cases:
            s = st
            if f is None:
                s = st.copy()
                s.facts[('exp', o[1])] = i
            x = I.expanded(o, i)
            same = lambda w: lambda a, s2: None if self.get(a, s2) == self.get(w, s2) else self.bad('%s instead of %s' % (brief(a), brief(w)))
            if vs[i] == 'Symbol':
                self.function(v, s, same(x[3][0]), [self.param([lhs], [], name)], 'a.f')
            elif vs[i] == 'Function':
                ps = x[3][1]
                for s2, p in flowlib.element(I, s, ps, ('i', 0)):
                    if p is None:
                        continue
                    g = self.adt(p, s2, self.PAR, None, 'first arguments') if self.get(p, s2)[0] == 'adt' else None
                    if g is None:
                        e = I.expanded(self.get(p, s2), 0)
                        g = self.adt(e, s2, self.PAR, None, 'first arguments')
                    f2 = self.get(v, s2)
                    if f2[0] != 'adt' or f2[2] != i:
                        self.bad('a.f(x) is not an application: %s' % brief(f2))
                    same(x[3][0])(f2[3][0], s2)
                    q = self.get(f2[3][1], s2)
                    rest = flowlib_tail(I, s2, ps)
                    if q[0] != 'seq' or not q[1] or q[1][0][0] != 'e' or q[1][1:] != rest:
                        self.bad('a.f(x)(y): other argument lists changed')
                    h = self.adt(q[1][0][1], s2, self.PAR, None, 'first arguments')
                    ar = self.get(h['arguments'], s2)
                    if ar[0] != 'seq' or not ar[1] or ar[1][0][0] != 'e':
                        self.bad('a.f(x): arguments %s' % brief(ar))
                    lhs[1](ar[1][0][1], s2)
                    if ('seq', ar[1][1:]) != self.get(g['arguments'], s2):
                        self.bad('a.f(x): the written arguments changed')
                    same(g['options'])(h['options'], s2)
            elif vs[i] == 'Integer':
                sym = self.path_ci('std::core::index')
                self.function(v, s, sym, [self.param([lhs, ('e', self.side('rhs', name))], [], name)], 'a.1')
            # other right operands have no documented meaning

    def path_ci(self, path):
        def ck(v, st):
            try:
                self.path_sym(path)(v, st)
            except Mis:
                ws = path.split('::')
                self.path_sym('::'.join(ws[:-1] + [ws[-1].capitalize()]))(v, st)
        return ck

    def r_term(self, v, st, name):
        for s, ps in self.forks(st, name, 'term'):
            k = [i for i, p in enumerate(ps) if p[0] == 'e' and p[1][2] == 'node']
            if len(k) != 1:
                raise Giveup('children of term')
            k = k[0]
            chain = [(p, False) for p in ps[k + 1:]] + [(p, True) for p in reversed(ps[:k])]
            x = v
            for p, rev in reversed(chain):
                x = self.layer(x, s, p, rev)
            self.den('node', ps[k][1][1])(x, s)

    def layer(self, v, st, p, rev):
        """v applies the operators of part p; returns what they are applied to"""
        v = self.get(v, st)
        if p[0] == 'e':
            inner = []
            self.applied(p[1][2], p[1][1], lambda x, s: inner.append(x))(v, st)
            return inner[0]
        src = ('rev', p[1]) if rev else p[1]
        if v[0] != 'o' or v[1][0] != 'fold':
            self.bad('operators around a term are dropped: %s' % brief(v))
        _, fs, inits, br = v[1][:4]
        if fs != src:
            if base_src(fs) == base_src(src):
                self.bad('operators are applied in the wrong order')
            self.bad('operators are applied to the wrong operand')
        if len(inits) != 1:
            raise Giveup('fold with several accumulators')
        for r in root_src(src)[3]:
            el = ('el', base_src(src))
            s0 = flowlib.with_facts(self.I, st, [(('rule', el), r)])
            if s0 is None:
                continue
            hit = False
            for c, val in br[0]:
                s = flowlib.with_facts(self.I, s0, c)
                if s is None:
                    continue
                hit = True
                self.applied(r, el, self.acc)(val, s)
            if not hit:
                self.bad('%s tokens are dropped' % r)
        return inits[0]

    def applied(self, rule, name, operand):
        """v is the operator token applied to the operand"""
        def ck(v, st):
            if rule == 'Prefix':
                self.function(v, st, self.operator(name, rule, ('std', 'prefix'), 'Prefix', self.prefix),
                              [self.param([('e', operand)], [], name)], 'prefix operator')
            elif rule == 'Suffix':
                self.function(v, st, self.operator(name, rule, ('std', 'suffix'), 'Suffix', self.suffix),
                              [self.param([('e', operand)], [], name)], 'suffix operator')
            elif rule == 'slice':
                for s, ps in self.forks(st, name, rule):
                    self.function(v, s, self.path_sym('std::core::Index'),
                                  [self.param([('e', operand)] + self.plan(ps, ('index',)), [], name)], 'a[..]')
            else:
                raise Giveup('operator token %s' % rule)
        return ck

    def plan(self, ps, keep, conv=None):
        """plan for the kept children of a token, in order; the others (separators) contribute nothing"""
        conv = conv or (lambda r, n, st: [(st, [self.den(r, n)])])
        out = []
        for p in ps:
            if p[0] == 'e':
                if p[1][2] in keep:
                    out.append(('e', self.den(p[1][2], p[1][1])))
            else:
                out.append(('seg', p, lambda r, n, st: conv(r, n, st) if r in keep else [(st, [])]))
        return out

    def r_list(self, v, st, name):
        for s, ps in self.forks(st, name, 'list'):
            self.function(v, s, self.path_sym('std::containers::List'), [self.param(self.plan(ps, ('expr',)), [], name)], 'a list')

    def r_index(self, v, st, name):
        for s, ps in self.forks(st, name, 'index'):
            kids = [p[1] for p in ps if p[0] == 'e']
            if len(kids) != len(ps):
                raise Giveup('children of index')
            e = [k for k in kids if k[2] == 'expr']
            if e:
                self.den('expr', e[0][1])(v, s)
                continue
            ar = []
            for r, dflt in (('Start', self.integer(1)), ('End', self.plain('std::core::All')), ('Step', self.integer(1))):
                k = [x for x in kids if x[2] == r]
                ar.append(('e', self.den(r, k[0][1]) if k else dflt))
            self.function(v, s, self.path_sym('std::core::Span'), [self.param(ar, [], name)], 'a range of indices')

    def r_apply_call(self, v, st, name):
        for s, ps in self.forks(st, name, 'apply_call'):
            if not ps or ps[0][0] != 'e' or ps[0][1][2] != 'Symbol':
                raise Giveup('children of apply_call')
            plan = []
            for p in ps[1:]:
                if p[0] == 'e':
                    plan.append(('e', self.arglist(p[1][1])) if p[1][2] == 'apply' else None)
                else:
                    plan.append(('seg', p, lambda r, n, s2: [(s2, [self.arglist(n)] if r == 'apply' else [])]))
            self.function(v, s, self.named(('text', ps[0][1][1], 'Symbol')), [x for x in plan if x], 'a call')

    def arglist(self, name):
        """a bracketed list of arguments is a Parameter"""
        def ck(v, st):
            self.stack.append('apply')
            for s, ps in self.forks(st, name, 'apply'):
                self.stack.append('apply')
                for s2, args, opts in self.entries(s, ps):
                    self.param(args, opts, name)(v, s2)
                self.stack.pop()
            self.stack.pop()
        return ck

    def entries(self, st, ps):
        """[(state, plan of arguments, plan of options)]"""
        outs = [(st, [], [])]
        for p in ps:
            nxt = []
            for s, a, o in outs:
                if p[0] == 'e':
                    if p[1][2] != 'apply_kv':
                        nxt.append((s, a, o))
                        continue
                    for s2, key, val in self.entry(s, p[1][1]):
                        nxt.append((s2, a + ([] if key else [('e', val)]), o + ([('e', self.pair(key, val))] if key else [])))
                else:
                    def emit(r, n, s2, want):
                        if r != 'apply_kv':
                            return [(s2, [])]
                        return [(s3, ([self.pair(key, val)] if want else [val]) if bool(key) == want else []) for s3, key, val in self.entry(s2, n)]
                    nxt.append((s, a + [('seg', p, lambda r, n, s2: emit(r, n, s2, False))], o + [('seg', p, lambda r, n, s2: emit(r, n, s2, True))]))
            outs = nxt
        return outs

    def entry(self, st, name):
        out = []
        for s, ps in self.forks(st, name, 'apply_kv'):
            kids = [p[1] for p in ps if p[0] == 'e']
            key = [k for k in kids if k[2] == 'SYMBOL']
            val = [k for k in kids if k[2] == 'expr']
            if len(val) != 1 or len(kids) != len(ps):
                raise Giveup('children of apply_kv')
            out.append((s, self.den('SYMBOL', key[0][1]) if key else None, self.den('expr', val[0][1])))
        return out

    def pair(self, key, val):
        def ck(v, st):
            v = self.get(v, st)
            if v[0] != 'tup' or len(v[1]) != 2:
                self.bad('an option expected, found %s' % brief(v))
            key(v[1][0], st)
            val(v[1][1], st)
        return ck

    def r_space_call(self, v, st, name):
        for s, ps in self.forks(st, name, 'space_call'):
            ks = set()
            for p in ps:
                ks |= {p[1][2]} if p[0] == 'e' else set(root_src(p[1])[3])
            sym = self.juxta
            self.function(v, s, sym, [self.param(self.plan(ps, ks), [], name)], 'a product by juxtaposition')

    def juxta(self, v, st):
        f = self.adt(v, st, self.SYM, None, 'a symbol')
        self.seq(f['name_space'], st, [('e', self.const(w)) for w in ('std', 'infix')], 'name space')
        self.const(INFIX['Multiply'])(f['name'], st)
        k = self.get(f['kind'], st)
        if k[0] != 'adt' or k[2] != self.I.variant(self.KIND, 'Infix') or self.lit(k[3][0], st) not in ('*', '×'):
            self.bad('a product by juxtaposition is not printed as a product: %s' % brief(k))

    # literals
    def integer(self, n):
        def ck(v, st):
            f = self.get(v, st)
            if f != ('adt', self.AST, self.I.variant(self.AST, 'Integer'), (('i', n),)):
                self.bad('the integer %d expected, found %s' % (n, brief(f)))
        return ck

    def plain(self, path):
        def ck(v, st):
            f = self.get(v, st)
            if f[0] != 'adt' or f[1] != self.AST or f[2] != self.I.variant(self.AST, 'Symbol'):
                self.bad('the symbol %s expected, found %s' % (path, brief(f)))
            self.path_sym(path)(f[3][0], st)
        return ck

    def variant(self, v, st, name):
        f = self.get(v, st)
        if f[0] != 'adt' or f[1] != self.AST or f[2] != self.I.variant(self.AST, name):
            self.bad('%s expected, found %s' % (name, brief(f)))
        return f[3][0]

    def r_Symbol(self, v, st, name, rule='Symbol'):
        self.named(('text', name, rule))(self.variant(v, st, 'Symbol'), st)

    def r_SYMBOL(self, v, st, name):
        self.r_Symbol(v, st, name, 'SYMBOL')

    def number(self, x, st, radix):
        x = self.get(x, st)
        if x[0] == 'i':
            return S(str(x[1]))
        if x[0] == 'n' and x[1] == 0 and isinstance(x[2], tuple) and x[2][0] == 'intval' and x[2][2] == radix:
            return x[2][1]
        self.bad('the number written in base %d expected, found %s' % (radix, brief(x)))

    def r_Integer(self, v, st, name, rule='Integer'):
        t = self.number(self.variant(v, st, 'Integer'), st, 10)
        if not self.whole(t, st, ('text', name, rule)):
            self.bad('not all digits are read: %s' % brief(t))

    def r_Positive(self, v, st, name):
        self.r_Integer(v, st, name, 'Positive')

    def whole(self, t, st, n):
        """is t the whole text named n"""
        return self.tail(t, st, n) == 0

    def tail(self, t, st, n):
        """number of characters dropped in front when t is a tail of the text named n, else None"""
        t = self.I.tnorm(st, t)
        if t == self.I.tnorm(st, ('str', (('t', n),))):
            return 0
        if len(t[1]) == 1 and isinstance(t[1][0], tuple) and t[1][0][0] == 't':
            x = t[1][0][1]
            if x[0] == 'sub' and x[1] == n and x[3] == 0:
                return self.chars_in(st, n, x[2])
            return None
        have = self.atoms(t[1])
        for path in self.paths_of(st, n):
            want = self.atoms(path)
            k = len(want) - len(have)
            if k < 0 or want[k:] != have or any(w[0] not in ('cv', 'ch') for w in want[:k]):
                continue
            return k
        return None

    def paths_of(self, st, n):
        """the decompositions of a text into characters that were used on this path"""
        ks = [(k[2], i) for k, i in st.facts.items() if k[0] == 'path' and k[1] == n]
        L = self.I.tlang(st, n)
        cp = T.char_paths(L)
        if cp is not None and len(cp) == 1 and (L, 0) not in ks:
            ks.append((L, 0))
        out = []
        for L, k in ks:
            ps = []
            for i, it in enumerate(T.char_paths(L)[k]):
                if it[0] == 'e':
                    ps.append(self.I.nrm(st, ('cv', ('chr', n, (L, k, i), tuple(sorted(it[1]))))))
                else:
                    x = self.I.ident(('cseg', n, (L, k, i), tuple(it[1]), it[2]))
                    ps.append(('tm', x[1], tuple((c, tuple(y[1] for y in q)) for c, q in x[2])))
            out.append(ps)
        return out

    def atoms(self, ps):
        out = []
        for p in ps:
            if isinstance(p, str):
                out += [('ch', c) for c in p]
            else:
                out.append(p)
        return out

    def chars_in(self, st, n, k):
        """characters in the first k bytes of the text, if the same for every text"""
        L = self.I.tlang(st, n)
        i = b = 0
        while b < k:
            cs = T.at(L, i)
            ws = {len(a.encode()) for a in cs if T.exact(a)} if cs and all(T.exact(a) for a in cs) else None
            if not ws or len(ws) != 1:
                return None
            b += ws.pop()
            i += 1
        return i if b == k else None

    def r_Decimal(self, v, st, name):
        x = self.get(self.variant(v, st, 'Decimal'), st)
        n = x[1] if x[0] == 'o' else None
        if not n or n[0] != 'decval' or not self.whole(n[1], st, ('text', name, 'Decimal')):
            self.bad('the decimal as written expected, found %s' % brief(x))

    def r_Byte(self, v, st, name):
        x = self.variant(v, st, 'Integer')
        n = ('text', name, 'Byte')
        L = self.I.tlang(st, n)
        hit = False
        for c, radix in (('b', 2), ('o', 8), ('x', 16)):
            M = T.inter(L, T.rx(('seq', [('sym', '0'), ('set', frozenset((c, c.upper()))), ('star', ('set', T.sigma()))])))
            if T.empty(M):
                continue
            s = self.I.with_lang(st, n, M)
            if s is None or not self.consistent(s, n, 1, (c, c.upper())):
                continue
            hit = True
            t = self.number(x, s, radix)
            k = self.tail(t, s, n)
            if k is None or k < 2 or (k == 3 and not self.all_at(s, n, 2, ('_',))) or k > 3:
                self.bad('the digits after the prefix expected, found %s' % brief(t))
        if not hit:
            raise Giveup('no case for a byte')

    def consistent(self, st, n, i, cs):
        """may character i of text n be one of cs (by the facts about single characters)"""
        for k, s in st.facts.items():
            if k[0] == 'S' and k[1][0] == 'chr' and k[1][1] == n and isinstance(k[1][2], tuple) and k[1][2][-1] == i:
                if not s & set(cs):
                    return False
        return True

    def all_at(self, st, n, i, cs):
        a = T.at(self.I.tlang(st, n), i)
        if a is not None and set(a) <= set(cs):
            return True
        for ps in self.paths_of(st, n):
            if len(ps) > i and all(p[0] in ('cv', 'ch') for p in ps[:i + 1]):
                c = ps[i]
                if set(self.I.cset(st, c[1]) if c[0] == 'cv' else {c[1]}) <= set(cs):
                    return True
        return False

    def r_Special(self, v, st, name):
        n = ('text', name, 'Special')
        ws = T.words(self.I.tlang(st, n), 8)
        if ws is None:
            raise Giveup('words of Special')
        for w in ws:
            s = self.I.with_lang(st, n, T.lit(w))
            if w in ('true', 'false'):
                b = self.get(self.variant(v, s, 'Boolean'), s)
                if b[0] == 'b':
                    b = self.forced(b, s, n, w)
                if b != ('i', int(w == 'true')):
                    self.bad('%s denotes %s' % (w, brief(b)))
            elif w == 'null':
                self.plain('std::constant::Null')(v, s)

    def forced(self, b, st, n, w):
        return self.I.nrm(st, b)

    def r_String(self, v, st, name):
        x = self.text(self.variant(v, st, 'String'), st)
        for s, ps in self.forks(st, name, 'String'):
            body = [p[1] for p in ps if p[0] == 'e' and p[1][2] in ('StringNormal', 'StringBlock')]
            if len(body) != 1:
                raise Giveup('children of String')
            _, nm, r = body[0]
            if r == 'StringNormal':
                want = ('str', (('t', ('sub', ('text', nm, r), 1, 1)),))
                if self.I.tnorm(s, x) != self.I.tnorm(s, want):
                    self.bad('the text between the quotes expected, found %s' % brief(x))
                continue
            for s2, qs in self.forks(s, nm, r):
                ts = [q[1] for q in qs if q[0] == 'e' and q[1][2] == 'StringText']
                want = ('str', (('t', ('text', ts[0][1], 'StringText')),)) if ts else S('')
                if self.I.tnorm(s2, x) != self.I.tnorm(s2, want):
                    self.bad('the text of the block expected, found %s' % brief(x))

    def r_REPL(self, v, st, name):
        n = ('text', name, 'REPL')
        L = self.I.tlang(st, n)
        sg = ('star', ('set', T.sigma()))
        dig = ('set', frozenset('0123456789'))
        hit = False
        for c, sym in (('¶', 'std::repl::input'), ('⁋', 'std::repl::output')):
            for numbered in (True, False):
                M = T.inter(L, T.rx(('seq', [('sym', c), dig, sg]) if numbered else ('seq', [('sym', c), ('star', ('sym', c))])))
                s = None if T.empty(M) else self.I.with_lang(st, n, M)
                if s is None or not self.path_fits(s, n, c, numbered):
                    continue
                hit = True
                self.function(v, s, self.path_sym(sym), [self.param([('e', self.history(n, c, numbered))], [], name)], 'a history reference')
        if not hit:
            raise Giveup('no case for a history reference')

    def path_fits(self, st, n, c, numbered):
        """the text chosen by the path facts starts with c (followed by a digit iff numbered)"""
        for ps in self.paths_of(st, n):
            sets = []
            for p in ps:
                sets.append({p[1]} if p[0] == 'ch' else set(self.I.cset(st, p[1])) if p[0] == 'cv' else set(root_src(p[1])[3]))
            if sets and c not in sets[0]:
                return False
            if len(sets) > 1 and ps[1][0] != 'tm':
                if not sets[1] - {c} if numbered else c not in sets[1]:
                    return False
            if numbered and len(sets) == 1:
                return False
        return True

    def history(self, n, c, numbered):
        def ck(v, st):
            x = self.get(self.variant(v, st, 'Integer'), st)
            if numbered:
                t = self.number(x, st, 10)
                if self.tail(t, st, n) != 1:
                    self.bad('the number after %s expected, found %s' % (c, brief(t)))
                return
            # minus the number of marks
            w = flow.litof(self.I.tnorm(st, ('str', (('t', n),))))
            if w is not None:
                if x != ('i', -len(w)):
                    self.bad('%s denotes entry %s' % (w, brief(x)))
                return
            got = self.neg(x, st)
            for ps in self.paths_of(st, n):
                at = self.atoms(ps)
                if got == (sum(p[0] != 'tm' for p in at), tuple(root_src(p[1]) for p in at if p[0] == 'tm')):
                    return
            self.bad('%s... denotes entry %s' % (c, brief(x)))
        return ck

    def neg(self, x, st):
        """-(k + sum of lengths of segments), or None"""
        if x[0] == 'i':
            return (-x[1], ())
        if x[0] != 'n' or not isinstance(x[2], tuple):
            return None
        if x[2][0] == 'poly':
            ns = []
            for mono, co in x[2][1]:
                if co != -1 or len(mono) != 1 or mono[0][0] != 'len' or mono[0][1][0] != 'm' or not self.I.one_to_one(mono[0][1]):
                    return None
                ns.append(root_src(mono[0][1][1]))
            return (-x[1], tuple(ns))
        return None

    def r_Slot(self, v, st, name):
        n = ('text', name, 'Slot')
        L = self.I.tlang(st, n)
        for two, sym in ((True, 'std::core::slot_sequence'), (False, 'std::core::slot')):
            K = T.rx(('seq', [('sym', '#'), ('sym', '#'), ('star', ('set', T.sigma()))]))
            M = T.inter(L, K) if two else T.minus(L, K)
            s = None if T.empty(M) else self.I.with_lang(st, n, M)
            if s is None:
                continue
            for s2, ps in self.forks(s, name, 'Slot'):
                ar = []
                for p in ps:
                    if p[0] != 'e':
                        raise Giveup('children of Slot')
                    _, nm, r = p[1]
                    if r == 'SYMBOL':
                        ar.append(('e', self.string_of(('text', nm, r))))
                    else:
                        ar.append(('e', self.den(r, nm)))
                self.function(v, s2, self.path_sym(sym), [self.param(ar, [], name)], 'a slot')

    def string_of(self, n):
        def ck(v, st):
            x = self.text(self.variant(v, st, 'String'), st)
            if not self.whole(x, st, n):
                self.bad('the name of a slot expected, found %s' % brief(x))
        return ck

    def symbol_text(self, t):
        """the token whose whole text is t, when it is the path of a symbol"""
        if len(t[1]) == 1 and isinstance(t[1][0], tuple) and t[1][0][0] == 't':
            n = t[1][0][1]
            if isinstance(n, tuple) and n[0] == 'text' and n[2] in ('Symbol', 'SYMBOL'):
                return n
        return None

    # ---------------------------------------------------------- tables
    def tables(self):
        """[(rule, message)] for the operator names collected"""
        out = []
        by = {}
        for (r, w), ns in self.infix.items():
            by.setdefault(r, set()).update(ns)
        for r, ns in by.items():
            if len(ns) != 1:
                out.append((r, 'the spellings of %s denote different operations: %s' % (r, ', '.join(sorted(map(str, ns))))))
            elif r in INFIX and ns != {INFIX[r]}:
                out.append((r, '%s denotes %s instead of %s' % (r, ', '.join(ns), INFIX[r])))
        seen = {}
        for r, ns in sorted(by.items()):
            for x in ns:
                if seen.setdefault(x, r) != r:
                    out.append((r, '%s and %s denote the same operation %s' % (seen[x], r, x)))
        for tab, fixed, k in ((self.prefix, PREFIX, 'prefix'), (self.suffix, SUFFIX, 'suffix')):
            seen = {}
            for (r, w), ns in sorted(tab.items(), key=repr):
                if w in fixed and ns != {fixed[w]}:
                    out.append((r, '%s %s denotes %s instead of %s' % (k, w, ', '.join(map(str, ns)), fixed[w])))
                for x in ns:
                    if x in fixed.values() and (w is None or fixed.get(w) != x):
                        out.append((r, '%s operator %s denotes %s' % (k, w, x)))
                    o = seen.setdefault(x, w)
                    if x is not None and o != w and fixed.get(o) != fixed.get(w, 0):
                        out.append((r, '%s operators %s and %s denote the same operation %s' % (k, o, w, x)))
        return out


def sep_lang():
    s = ('star', ('set', T.sigma()))
    return T.union(T.rx(('seq', [s, ('sym', ':'), ('sym', ':'), s])), T.rx(('seq', [s, ('sym', T.symof('∷')), s])))


def flowlib_tail(I, st, ps):
    """parts of ps[1..]"""
    v = I.subseq(st, I.D(st, ps), 1)
    v = v[0][1] if isinstance(v, list) else v
    return v[1]
