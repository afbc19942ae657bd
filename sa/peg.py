"""PEGs: the published grammar (simple-math.pest), and the one the generated
parser implements, recovered by abstract interpretation of its MIR.

Expressions: ('str', s) ('istr', s) ('range', a, b) ('any',) ('prop', name)
('soi',) ('eoi',) ('peek',) ('pop',) ('ref', rule) ('seq', [..]) ('cho', [..])
('star', e) ('not', e) ('and', e) ('push', e) ('rule', R, e) ('atomic', k, e)
('restore', e) ('skip',) ('raw', [..]) sequence without backtracking, ('fail',)
`e?` is ('cho', [e, EPS]); EPS = ('seq', [])."""
import os, re
import interp
from interp import *
from vals import *

EPS = ('seq', ())
FAIL = ('fail',)


class GrammarError(Exception):
    pass


# ------------------------------------------------------------ .pest reader
TOK = re.compile(r'''(?x)
  (?P<ws>(?:\s+|//[^\n]*|/\*(?:[^*]|\*(?!/))*\*/)+)
| (?P<istr>\^"(?:[^"\\]|\\.)*")
| (?P<str>"(?:[^"\\]|\\.)*")
| (?P<chr>'(?:[^'\\]|\\(?:u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.))')
| (?P<id>[A-Za-z_][A-Za-z_0-9]*)
| (?P<num>\d+)
| (?P<op>\.\.|[={}()~|*+?!&@$_,\[\]#-])
''')


def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == 'u':
            return chr(int(x[2:-1], 16))
        if x[0] == 'x':
            return chr(int(x[1:], 16))
        return {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(x, x)
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', f, s)


def read_grammar(text):
    """{rule: (modifier, expression)} in source form"""
    toks, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise GrammarError('cannot read the grammar near %r' % text[i:i + 30])
        i = m.end()
        if m.lastgroup != 'ws':
            toks.append((m.lastgroup, m.group()))
    toks.append(('end', ''))
    pos = [0]

    def peek(k=0):
        return toks[pos[0] + k]

    def eat(x=None):
        t = toks[pos[0]]
        if x is not None and t[1] != x:
            raise GrammarError('expected %s, found %s' % (x, t[1]))
        pos[0] += 1
        return t

    def choice():
        if peek()[1] == '|':
            eat()
        r = [seq()]
        while peek()[1] == '|':
            eat()
            r.append(seq())
        return r[0] if len(r) == 1 else ('cho', tuple(r))

    def seq():
        r = [term()]
        while peek()[1] == '~':
            eat()
            r.append(term())
        return r[0] if len(r) == 1 else ('seq', tuple(r))

    def term():
        pre = []
        while peek()[1] in ('!', '&'):
            pre.append(eat()[1])
        e = node()
        while True:
            p = peek()[1]
            if p == '*':
                eat()
                e = ('Star', e)
            elif p == '+':
                eat()
                e = ('seq', (e, ('Star', e)))
            elif p == '?':
                eat()
                e = ('cho', (e, EPS))
            elif p == '{' and (peek(1)[0] == 'num' or peek(1)[1] == ','):
                eat()
                lo, hi = 0, None
                if peek()[0] == 'num':
                    lo = hi = int(eat()[1])
                if peek()[1] == ',':
                    eat()
                    hi = None
                    if peek()[0] == 'num':
                        hi = int(eat()[1])
                eat('}')
                xs = [e] * lo
                xs += [('Star', e)] if hi is None else [('cho', (e, EPS))] * (hi - lo)
                e = xs[0] if len(xs) == 1 else ('seq', tuple(xs))
            else:
                break
        for p in reversed(pre):
            e = ('not' if p == '!' else 'and', e)
        return e

    def node():
        k, t = eat()
        if t == '(':
            e = choice()
            eat(')')
            return e
        if k == 'str':
            return ('str', unescape(t[1:-1]))
        if k == 'istr':
            return ('istr', unescape(t[2:-1]))
        if k == 'chr':
            a = unescape(t[1:-1])
            eat('..')
            return ('range', a, unescape(eat()[1][1:-1]))
        if k == 'id':
            if t == 'PUSH' and peek()[1] == '(':
                eat()
                e = choice()
                eat(')')
                return ('push', e)
            return ('ref', t)
        raise GrammarError('unexpected %r' % t)

    rules = {}
    while peek()[0] != 'end':
        name = eat()[1]
        eat('=')
        mod = ''
        if peek()[1] in ('_', '@', '$', '!'):
            mod = eat()[1]
        eat('{')
        e = choice()
        eat('}')
        if name in rules:
            raise GrammarError('rule %s defined twice' % name)
        rules[name] = (mod, e)
    return rules


BUILTIN = {
    'ANY': ('any',), 'SOI': ('soi',), 'PEEK': ('peek',), 'POP': ('pop',),
    'EOI': ('rule', 'EOI', ('eoi',)),
    'ASCII_DIGIT': ('range', '0', '9'), 'ASCII_NONZERO_DIGIT': ('range', '1', '9'), 'ASCII_BIN_DIGIT': ('range', '0', '1'),
    'ASCII_OCT_DIGIT': ('range', '0', '7'),
    'ASCII_HEX_DIGIT': ('cho', (('range', '0', '9'), ('range', 'a', 'f'), ('range', 'A', 'F'))),
    'ASCII_ALPHA_LOWER': ('range', 'a', 'z'), 'ASCII_ALPHA_UPPER': ('range', 'A', 'Z'),
    'ASCII_ALPHA': ('cho', (('range', 'a', 'z'), ('range', 'A', 'Z'))),
    'ASCII_ALPHANUMERIC': ('cho', (('range', 'a', 'z'), ('range', 'A', 'Z'), ('range', '0', '9'))),
    'NEWLINE': ('cho', (('str', '\n'), ('str', '\r\n'), ('str', '\r'))),
    'WHITE_SPACE': ('prop', 'WHITE_SPACE'), 'XID_START': ('prop', 'XID_START'), 'XID_CONTINUE': ('prop', 'XID_CONTINUE'),
}


def lower_grammar(rules):
    """the PEG pest defines for the rules: implicit skipping, token wrappers"""
    stack = touching(rules)
    out = {}

    def low(e, atomic):
        k = e[0]
        if k == 'seq':
            xs = []
            for i, x in enumerate(e[1]):
                if i and not atomic:
                    xs.append(('skip',))
                xs.append(low(x, atomic))
            return ('seq', tuple(xs))
        if k == 'Star':
            b = restored(low(e[1], atomic), e[1])
            if atomic:
                return ('star', b)
            return ('cho', (('seq', (b, ('star', ('seq', (('skip',), b))))), EPS))
        if k == 'cho':
            return ('cho', tuple(x if x == EPS else restored(low(x, atomic), x) for x in e[1]))
        if k in ('not', 'and', 'push'):
            return (k, low(e[1], atomic))
        if k == 'ref':
            if e[1] in rules:
                return e
            if e[1] not in BUILTIN:
                raise GrammarError('undefined rule %s' % e[1])
            return BUILTIN[e[1]]
        return e

    def restored(b, src):
        return ('restore', b) if stack_in(src, stack) else b

    for r, (mod, e) in rules.items():
        b = low(e, mod in ('@', '$') or r in ('WHITESPACE', 'COMMENT'))
        if r in ('WHITESPACE', 'COMMENT'):
            b = ('atomic', 'Atomic', b if mod == '_' else ('rule', r, b))
        elif mod == '':
            b = ('rule', r, b)
        elif mod == '@':
            b = ('rule', r, ('atomic', 'Atomic', b))
        elif mod == '$':
            b = ('atomic', 'CompoundAtomic', ('rule', r, b))
        elif mod == '!':
            b = ('atomic', 'NonAtomic', ('rule', r, b))
        out[r] = b
    ws = [('star', ('ref', 'WHITESPACE'))] if 'WHITESPACE' in rules else []
    if 'COMMENT' in rules:
        c = ('ref', 'COMMENT')
        ws.append(('star', ('seq', (c, ws[0]))) if ws else ('star', c))
    return out, ('seq', tuple(ws))


def stack_in(e, stack):
    if e[0] in ('push', 'pop'):
        return True
    if e[0] == 'ref':
        return e[1] in stack or e[1] == 'POP'
    return any(stack_in(x, stack) for x in kids(e))


def kids(e):
    if e[0] in ('seq', 'cho', 'raw'):
        return e[1]
    if e[0] in ('star', 'Star', 'not', 'and', 'push', 'restore'):
        return (e[1],)
    if e[0] in ('rule', 'atomic'):
        return (e[2],)
    return ()


def touching(rules):
    """rules of the source grammar that can change pest's match stack"""
    s = set()
    while True:
        n = {r for r, (_, e) in rules.items() if stack_in(e, s)}
        if n == s:
            return s
        s = n


class Stack:
    """What a rule does to the match stack, as greatest fixpoints over the
    rules: neutral (the stack is as before after a success), clean (as before
    after a failure)."""

    def __init__(self, G):
        self.neutral = set(G)
        self.clean = set(G)
        while True:
            n = {r for r in self.neutral if self.delta(G[r]) == 0}
            c = {r for r in self.clean if self.is_clean(G[r])}
            if n == self.neutral and c == self.clean:
                break
            self.neutral, self.clean = n, c

    def delta(self, e):
        """entries pushed by a success (None: unknown, or entries of the caller may be gone)"""
        k = e[0]
        if k == 'push':
            return 1 if self.delta(e[1]) == 0 else None
        if k == 'pop':
            return -1
        if k in ('seq', 'raw'):
            d = 0
            for x in e[1]:
                y = self.delta(x)
                if y is None or d + y < 0:
                    return None
                d += y
            return d
        if k == 'cho':
            ds = {self.delta(x) for x in e[1]}
            return ds.pop() if len(ds) == 1 and all(self.is_clean(x) for x in e[1][:-1]) else None
        if k == 'star':
            return 0 if self.delta(e[1]) == 0 and self.is_clean(e[1]) else None
        if k == 'ref':
            return 0 if e[1] in self.neutral else None
        if k in ('rule', 'atomic'):
            return self.delta(e[2])
        if k == 'restore':
            return self.delta(e[1])
        return 0

    def is_clean(self, e):
        k = e[0]
        if k == 'pop':
            return False
        if k in ('seq', 'raw'):
            d = 0
            for x in e[1]:
                if not infallible(x) and not (d == 0 and self.is_clean(x)):
                    return False
                y = self.delta(x)
                d = None if y is None or d is None else d + y
            return True
        if k == 'cho':
            return infallible(e) or all(self.is_clean(x) for x in e[1])
        if k == 'ref':
            return e[1] in self.clean
        if k in ('rule', 'atomic'):
            return self.is_clean(e[2])
        if k == 'push':
            return self.is_clean(e[1])
        return True

    def underflow(self, e, d=0):
        """peek/pop items reached with no entry pushed by the same rule"""
        k = e[0]
        if k in ('peek', 'pop'):
            return d < 1
        if k in ('seq', 'raw'):
            for x in e[1]:
                if self.underflow(x, d):
                    return True
                y = self.delta(x)
                if y is None:
                    y = 0 if d == 0 else -d
                d += y
            return False
        return any(self.underflow(x, d) for x in kids(e))


# ------------------------------------------------------------ normal form
def infallible(e):
    k = e[0]
    if k in ('star', 'skip'):
        return True
    if k in ('seq', 'raw'):
        return all(infallible(x) for x in e[1])
    if k == 'cho':
        return any(infallible(x) for x in e[1])
    if k in ('restore', 'push'):
        return infallible(e[1])
    if k in ('rule', 'atomic'):
        return infallible(e[2])
    return False


def items(e):
    return list(e[1]) if e[0] == 'seq' else [e]


def seq_of(xs):
    out = []
    for x in xs:
        for y in items(x):
            if out and y[0] == 'str' and out[-1][0] == 'str':
                out[-1] = ('str', out[-1][1] + y[1])
            elif y == ('str', ''):
                continue
            else:
                out.append(y)
    return out[0] if len(out) == 1 else ('seq', tuple(out))


def nf(e, stack):
    """normal form (equal normal forms denote the same matcher and tokens)"""
    k = e[0]
    if k == 'seq':
        return seq_of([unraw(nf(x, stack)) for x in e[1]])
    if k == 'raw':
        xs = []
        for x in e[1]:
            x = nf(x, stack)
            xs += list(x[1]) if x[0] == 'raw' else [x]
        # nothing consumed can be left behind when only the first item can fail
        if all(infallible(x) for x in xs[1:]):
            return seq_of(xs)
        return ('raw', tuple(xs)) if len(xs) > 1 else xs[0]
    if k == 'cho':
        alts = []
        for x in e[1]:
            x = nf(x, stack)
            alts += list(x[1]) if x[0] == 'cho' else [x]
        return factor(alts, stack)
    if k == 'star':
        return ('star', nf(e[1], stack))
    if k in ('not', 'and', 'push'):
        return (k, unraw(nf(e[1], stack)))
    if k == 'restore':
        return restore(unraw(nf(e[1], stack)), stack)
    if k == 'rule':
        return (k, e[1], unraw(nf(e[2], stack)))     # `rule` and `atomic`... `rule` resets the position on failure
    if k == 'atomic':
        b = nf(e[2], stack)
        if b[0] == 'atomic':
            return b
        return (k, e[1], b)
    return e


def unraw(e):
    """inside something that restores the position on failure"""
    if e[0] == 'raw':
        return seq_of(e[1])
    return e


def restore(b, stack):
    """restore(b) with the wrapper as far inside as it goes"""
    while b[0] == 'restore':
        b = b[1]
    if infallible(b) or stack.is_clean(b):
        return b
    if b[0] == 'seq' and all(stack.delta(x) == 0 for x in b[1]):
        return seq_of([restore(x, stack) for x in b[1]])
    if b[0] == 'cho' and all(stack.is_clean(x) for x in b[1][:-1]):
        return ('cho', b[1][:-1] + (restore(b[1][-1], stack),))
    return ('restore', b)


def factor(alts, stack):
    """ordered choice with common prefixes of neighbours factored out"""
    out = []
    for a in alts:
        if out and infallible(out[-1]):
            break                       # nothing after it can be reached
        xs = items(a)
        if out:
            ys = items(out[-1])
            n = 0
            while n < len(xs) and n < len(ys) and xs[n] == ys[n] and stack.delta(xs[n]) == 0:
                n += 1
            l = seq_of(ys[n:]) if ys[n:] else EPS
            if n and stack.is_clean(l):
                rest = factor([l, seq_of(xs[n:]) if xs[n:] else EPS], stack)
                out[-1] = seq_of(list(xs[:n]) + [rest])
                continue
        out.append(a)
    if len(out) == 1:
        return out[0]
    return ('cho', tuple(out))


def show(e, top=True):
    k = e[0]
    if k in ('seq', 'raw'):
        if not e[1]:
            return '""'
        s = (' ~ ' if k == 'seq' else ' ~raw~ ').join(show(x, False) for x in e[1])
        return s if top else '(' + s + ')'
    if k == 'cho':
        a = e[1]
        if a[-1] == EPS:
            return show(a[0] if len(a) == 2 else ('cho', a[:-1]), False) + '?'
        return ('%s' if top else '(%s)') % ' | '.join(show(x, False) for x in a)
    if k in ('str',):
        return '"%s"' % e[1]
    if k == 'istr':
        return '^"%s"' % e[1]
    if k == 'range':
        return "'%s'..'%s'" % e[1:]
    if k == 'star':
        return show(e[1], False) + '*'
    if k == 'not':
        return '!' + show(e[1], False)
    if k == 'and':
        return '&' + show(e[1], False)
    if k == 'ref' or k == 'prop':
        return e[1]
    if k == 'rule':
        return '<%s: %s>' % (e[1], show(e[2]))
    if k == 'atomic':
        return '%s{%s}' % (e[1], show(e[2]))
    if k in ('restore', 'push'):
        return '%s(%s)' % (k, show(e[1]))
    return k


def diff(a, b, where=''):
    """a readable place where two expressions differ"""
    if a == b:
        return None
    if a[0] == b[0] and a[0] in ('seq', 'cho', 'raw') and len(a[1]) == len(b[1]):
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                return diff(x, y, where)
    if a[0] == b[0] and a[0] in ('star', 'not', 'and', 'push', 'restore'):
        return diff(a[1], b[1], where)
    if a[0] == b[0] and a[0] in ('rule', 'atomic') and a[1] == b[1]:
        return diff(a[2], b[2], where)
    return (show(a)[:300], show(b)[:300])


# ------------------------------------------------------------ extraction
class PS(Val):
    """the parser state after matching the items e since the function began"""
    __slots__ = ('e',)

    def __init__(self, e=()):
        self.e = tuple(e)

    def __repr__(self):
        return 'state%r' % (self.e,)


class PRes(Val):
    """result of matching the items e"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)


class Atom(Val):
    __slots__ = ()


ATOMICITY = 'atomicity'
ATV = {'Atomic': 0, 'CompoundAtomic': 1, 'NonAtomic': 2}


class PegI(interp.Interp):
    def __init__(self, prog, refs):
        interp.Interp.__init__(self, prog)
        self.refs = refs            # inst -> name

    def one(self, outs, what):
        """the expression all outcomes of a parser function agree on"""
        es = []
        for o in outs:
            if o.kind != RET:
                raise Giveup('%s can panic: %s' % (what, o.val))
            es.append((o.st, self.expr(o.st, o.val)))
        ok = [e for _, e in es if e != FAIL] or [FAIL]
        if all(e == ok[0] for e in ok):
            return ok[0]
        na = var(ATOMICITY, ('u', 2)) - ATV['NonAtomic']
        ins = [e for st, e in es if entails(st.pc, ('eq', na))]
        outs_ = [e for st, e in es if not assume(st.pc, ('eq', na))]
        if len(ins) + len(outs_) == len(es) and len(ins) == 1 and all(e == EPS for e in outs_):
            return ('nonatomic', ins[0])
        raise Giveup('%s takes a decision that is not a grammar construct' % what)

    def expr(self, st, v):
        v = self.D(st, v)
        if isinstance(v, PRes):
            return self.pack(v.e)
        if isinstance(v, Adt) and v.vn == 'Ok' and isinstance(v.fs[0], PS):
            return self.pack(v.fs[0].e)
        if isinstance(v, Adt) and v.vn == 'Err':
            return FAIL
        raise Giveup('a parser function returns %r' % (v,))

    def pack(self, es):
        return es[0] if len(es) == 1 else (EPS if not es else ('raw', tuple(es)))

    def sub(self, f, st, span):
        return self.one(self.call_value(f, [PS()], st, span), 'a closure')

    def call(self, inst, args, st, span=None):
        if inst in self.refs and args and isinstance(self.D(st, args[0]), PS):
            return [Outcome(st, RET, PRes(self.D(st, args[0]).e + (('fn', inst),)))]
        return self.call_body(inst, args, st, span)

    def lit(self, st, v):
        v = self.D(st, v)
        if isinstance(v, Str) and v.s is not None:
            return v.s
        raise Giveup('a match against text that is not a literal')

    def call_fn(self, F, args, rty, st, span):
        p = F['path']
        n = p.split('::')[-1]
        a0 = self.D(st, args[0]) if args else None
        if n == 'atomicity' and 'ParserState' in p:
            return [Outcome(st, RET, Atom())]
        if isinstance(a0, PS) and 'ParserState' in p:
            e = None
            if n == 'rule':
                e = ('rule', self.D(st, args[1]).vn, self.sub(args[2], st, span))
            elif n == 'sequence':
                e = ('seq', (self.sub(args[1], st, span),))
            elif n == 'repeat':
                e = ('star', self.sub(args[1], st, span))
            elif n == 'optional':
                e = ('cho', (self.sub(args[1], st, span), EPS))
            elif n == 'restore_on_err':
                e = ('restore', self.sub(args[1], st, span))
            elif n == 'stack_push':
                e = ('push', self.sub(args[1], st, span))
            elif n == 'stack_peek':
                e = ('peek',)
            elif n == 'stack_pop':
                e = ('pop',)
            elif n == 'atomic':
                e = ('atomic', self.D(st, args[1]).vn, self.sub(args[2], st, span))
            elif n == 'lookahead':
                b = self.D(st, args[1])
                if not (isinstance(b, Bool) and b.f[0] == 'c'):
                    raise Giveup('lookahead of unknown sign')
                e = ('and' if b.f[1] else 'not', self.sub(args[2], st, span))
            elif n == 'match_string':
                e = ('str', self.lit(st, args[1]))
            elif n == 'match_insensitive':
                e = ('istr', self.lit(st, args[1]))
            elif n == 'match_range':
                r = self.D(st, args[1])
                c = [x.p.const() for x in r.fs]
                if len(c) != 2 or None in c:
                    raise Giveup('range that is not a literal')
                e = ('range', chr(c[0]), chr(c[1]))
            elif n == 'match_char_by':
                f = self.D(st, args[1])
                if not isinstance(f, Fn) or '::unicode::' not in f.ty['path']:
                    raise Giveup('match_char_by with %r' % (f,))
                e = ('prop', f.ty['path'].split('::')[-1])
            elif n == 'skip':
                k = self.D(st, args[1]).p.const()
                if k is None:
                    raise Giveup('skip of unknown length')
                e = ('raw', (('any',),) * k)
            elif n == 'skip_until':
                v = self.D(st, args[1])
                ss = [self.lit(st, x) for x in v.vs]
                e = ('star', ('seq', (('not', ('cho', tuple(('str', x) for x in ss))), ('any',))))
            elif n == 'start_of_input':
                e = ('soi',)
            elif n == 'end_of_input':
                e = ('eoi',)
            if e is None:
                raise Giveup('ParserState::%s' % n)
            return [Outcome(st, RET, PRes(a0.e + (e,)))]
        if isinstance(a0, PRes):
            if n == 'and_then':
                e = self.sub(args[1], st, span)
                return [Outcome(st, RET, PRes(a0.e + ((e,) if e != EPS else ())))]
            if n == 'or_else':
                # the alternative starts where the failed attempt left off: the state carried by the error
                e = self.sub(args[1], st, span)
                return [Outcome(st, RET, PRes((('cho', (self.pack(a0.e), e)),)))]
            if n == 'branch':
                return [Outcome(st, RET, Adt('std::ops::ControlFlow', 0, 'Continue', (PS(a0.e),)))]
        if isinstance(a0, Atom) and n in ('eq', 'ne'):
            w = self.D(st, args[1]).vn
            v = var(ATOMICITY, ('u', 2)) - ATV[w]
            return [Outcome(st, RET, Bool(('eq', v) if n == 'eq' else ('ne', v)))]
        return interp.Interp.call_fn(self, F, args, rty, st, span)


def parser_functions(prog):
    """functions ParserState -> ParseResult"""
    out = {}
    for i, b in prog.bodies.items():
        if b['closure'] or b['body']['argc'] != 1:
            continue
        t = prog.types[b['body']['locals'][1]]
        if t['k'] == 'adt' and 'ParserState' in t['text'] and 'Box' in t['adt']:
            r = prog.types[b['body']['locals'][0]]
            if r['k'] == 'adt' and r['adt'].endswith('Result'):
                out[i] = b
    return out


def extract_parser(prog):
    """(start table rule -> PEG with refs to rules, skip PEG, Rule variants, spans, problems)"""
    fns = parser_functions(prog)
    short = {i: b['name'].split('::')[-1] for i, b in fns.items()}
    bodies, problems = {}, []
    for i, b in fns.items():
        I = PegI(prog, short)
        try:
            bodies[i] = I.one(I.call_body(i, [PS()], State()), short[i])
        except (Giveup, KeyError, AttributeError, TypeError) as e:
            problems.append((short[i], '%s: %s' % (b['body']['span'], e)))
    # dispatch: which function a rule of the public API starts
    entry = [b for b in prog.bodies.values() if b['name'].endswith('::parse') and b['body']['argc'] == 2]
    rt = None
    table = {}
    for b in entry:
        t = prog.types[b['body']['locals'][1]]
        if t['k'] != 'adt' or t['kind'] != 'enum':
            continue
        rt = t
        for vi, v in enumerate(t['variants']):
            I = PegI(prog, short)
            got = []

            class D(PegI):
                def call_fn(self, F, args, rty, st, span):
                    if F['path'].endswith('pest::state'):
                        got.append(self.sub(args[1], st, span))
                        return [Outcome(st, RET, Top('pairs'))]
                    return PegI.call_fn(self, F, args, rty, st, span)
            I = D(prog, short)
            try:
                I.call_body(b['id'], [Adt(t['adt'], vi, v['name'], ()), VRef(Str(None))], State())
                if len(got) == 1 and got[0][0] == 'fn':
                    table[v['name']] = got[0][1]
                else:
                    problems.append((v['name'], 'dispatched to %r' % ([show(g) for g in got],)))
            except (Giveup, KeyError, AttributeError, TypeError) as e:
                problems.append((v['name'], 'dispatch: %s' % e))
    rev = {}
    for r, i in table.items():
        rev.setdefault(i, r)
    skip = None
    for i, e in bodies.items():
        if e[0] == 'nonatomic':
            skip = i

    def res(e, active):
        k = e[0]
        if k == 'fn':
            i = e[1]
            if i in rev and rev[i] != 'EOI':
                return ('ref', rev[i])
            if i == skip:
                return ('skip',)
            if i in active or i not in bodies:
                raise Giveup('helper %s cannot be resolved' % short.get(i, i))
            return res(bodies[i], active | {i})
        if k in ('seq', 'cho', 'raw'):
            return (k, tuple(res(x, active) for x in e[1]))
        if k in ('star', 'not', 'and', 'push', 'restore', 'nonatomic'):
            return (k, res(e[1], active))
        if k in ('rule', 'atomic'):
            return (k, e[1], res(e[2], active))
        return e
    G, spans = {}, {}
    for r, i in table.items():
        spans[r] = fns[i]['body']['span']
        if i in bodies:
            try:
                G[r] = res(bodies[i], frozenset([i]))
            except Giveup as x:
                problems.append((r, str(x)))
    sk_ = res(bodies[skip][1], frozenset([skip])) if skip is not None else None
    return dict(G=G, skip=sk_, variants=[v['name'] for v in rt['variants']] if rt else [], spans=spans, problems=problems, table=table,
                nfun=len(fns))


def normal(G):
    st = Stack(G)
    return {r: nf(e, st) for r, e in G.items()}, st


# ------------------------------------------------------------ tokens
def children(G, r, skip=None, silent=False):
    """regular expression over the tokens that are the children of a pair of
    rule r: (regex, set of contexts); rules are entered in the atomicity they
    are entered with when the rule is used non-atomically"""
    def tok(e, at, seen):
        k = e[0]
        if k in ('seq', 'raw'):
            return ('seq', [tok(x, at, seen) for x in e[1]])
        if k == 'cho':
            return ('alt', [tok(x, at, seen) for x in e[1]])
        if k == 'star':
            return ('star', tok(e[1], at, seen))
        if k in ('restore', 'push'):
            return tok(e[1], at, seen)
        if k == 'atomic':
            return tok(e[2], e[1], seen)
        if k == 'rule':
            return ('eps',) if at == 'Atomic' and not silent_free(e[2]) else (
                ('sym', e[1]) if at != 'Atomic' else tok(e[2], at, seen))
        if k == 'ref':
            if e[1] not in G:
                return ('none',)
            b, a2 = G[e[1]], at
            while b[0] == 'atomic':
                b, a2 = b[2], b[1]
            if b[0] == 'rule' and a2 != 'Atomic':
                return ('sym', b[1])
            if a2 == 'Atomic' and e[1] not in switching:
                return ('eps',)
            if e[1] in seen:
                raise GrammarError('recursive silent rule %s' % e[1])
            return tok(G[e[1]], at, seen | {e[1]})
        if k == 'skip':
            return tok(skip, at, seen) if skip is not None and at == 'NonAtomic' else ('eps',)
        return ('eps',)

    def silent_free(e):
        """can a token come out of an atomic rule's body: only below a switch to another atomicity"""
        if e[0] == 'atomic' and e[1] != 'Atomic':
            return True
        if e[0] == 'ref':
            return e[1] in switching
        return any(silent_free(x) for x in kids(e) if not (e[0] in ('not', 'and')))

    switching = set()
    while True:
        n = {q for q in G if q not in switching and silent_free(G[q])}
        if not n:
            break
        switching |= n
    # find the `rule` wrapper of r and the atomicity inside it
    def inner(e, at):
        if e[0] == 'atomic':
            return inner(e[2], e[1])
        if e[0] == 'rule' and e[1] == r:
            return e[2], at
        return None
    f = inner(G[r], 'NonAtomic')
    if f is None:
        # a silent rule: it never is a pair
        return tok(G[r], 'NonAtomic', frozenset([r])) if silent else None
    return tok(f[0], f[1], frozenset([r]))
