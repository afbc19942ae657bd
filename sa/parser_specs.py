"""B-properties about the parser itself: decided on the PEG recovered from the
MIR of the generated parser (sa/peg.py) and the published grammar file."""
import os
import peg
from peg import EPS, FAIL, show


def repo():
    return os.environ.get('SA_REPO') or '/repo'


GRAMMAR = 'projects/sm-parser/simple-math.pest'


def load(progs, rep):
    x = peg.extract_parser(progs['parser'])
    for r, why in x['problems']:
        rep.bad('undecided ' + r, 'rule %s: %s' % (r, why))
    rep.info['parser_functions'] = x['nfun']
    g, st = peg.normal(x['G'])
    sk = peg.nf(x['skip'], st) if x['skip'] is not None else EPS
    for r in g:
        rep.funcs.add('sm_parser rule %s (%s)' % (r, x['spans'][r]))
    return x, g, st, sk


# ------------------------------------------------------------ B01
def b01(progs, rep):
    x, g, st, sk = load(progs, rep)
    try:
        rules = peg.read_grammar(open(os.path.join(repo(), GRAMMAR), encoding='utf8').read())
        low, sk0 = peg.lower_grammar(rules)
    except peg.GrammarError as e:
        rep.bad('undecided grammar', '%s: %s' % (GRAMMAR, e))
        return
    low['EOI'] = ('rule', 'EOI', ('eoi',))
    l, st2 = peg.normal(low)
    sk0 = peg.nf(sk0, st2)
    rep.info['grammar_rules'] = len(rules)
    rep.need(sk == sk0, 'skip', 'whitespace and comments are skipped as the grammar says: code %s, grammar %s' % (show(sk), show(sk0)))
    rep.need(set(x['variants']) == set(l), 'rules', 'the Rule type has exactly the grammar\'s rules%s' % (
        '' if set(x['variants']) == set(l) else ': differing %s' % sorted(set(x['variants']) ^ set(l))))
    for r in sorted(set(l) | set(g)):
        if r == 'EOI' and r not in g:
            continue
        if r not in l or r not in g:
            if r not in dict(x['problems']):
                rep.bad('rule ' + r, 'rule %s exists only in the %s' % (r, 'grammar' if r in l else 'generated parser'))
            continue
        d = peg.diff(g[r], l[r])
        rep.need(d is None, 'rule ' + r, 'rule %s (%s) matches and emits what the grammar says%s' % (
            r, x['spans'][r], '' if d is None else ': the code has  %s  where the grammar has  %s' % d))
    rep.paths += len(g)


# ------------------------------------------------------------ the grammar as a graph
def reach(g, sk, start='program'):
    seen, todo = set(), [start]
    while todo:
        r = todo.pop()
        if r in seen or r not in g:
            continue
        seen.add(r)
        todo += refs(g[r])
    todo = refs(sk)
    while todo:
        r = todo.pop()
        if r not in seen and r in g:
            seen.add(r)
            todo += refs(g[r])
    return seen


def refs(e):
    if e[0] == 'ref':
        return [e[1]]
    return [r for k in peg.kids(e) for r in refs(k)]


def walk(e):
    yield e
    for k in peg.kids(e):
        yield from walk(k)


# ------------------------------------------------------------ a matcher for the recovered PEG (no code is run)
import unicodedata


def is_prop(n, c):
    if n == 'XID_START':
        return c.isidentifier() and c != '_'
    if n == 'XID_CONTINUE':
        return ('a' + c).isidentifier()
    if n == 'WHITE_SPACE':
        return c.isspace() and c not in '\x1c\x1d\x1e\x1f'
    raise peg.GrammarError('property ' + n)


class Match:
    def __init__(self, g, sk, s):
        self.g, self.sk, self.s, self.steps = g, sk, s, 0

    def run(self, e, p, stack, na=True):
        """(end, stack) or None; na: whitespace is being skipped"""
        self.steps += 1
        if self.steps > 200000:
            raise peg.GrammarError('matching does not end')
        s, k = self.s, e[0]
        if k == 'str':
            return (p + len(e[1]), stack) if s.startswith(e[1], p) else None
        if k == 'istr':
            return (p + len(e[1]), stack) if s[p:p + len(e[1])].lower() == e[1].lower() else None
        if k == 'range':
            return (p + 1, stack) if p < len(s) and e[1] <= s[p] <= e[2] else None
        if k == 'any':
            return (p + 1, stack) if p < len(s) else None
        if k == 'prop':
            return (p + 1, stack) if p < len(s) and is_prop(e[1], s[p]) else None
        if k == 'soi':
            return (p, stack) if p == 0 else None
        if k == 'eoi':
            return (p, stack) if p == len(s) else None
        if k in ('peek', 'pop'):
            t = stack[-1] if stack else ''
            return (p + len(t), stack[:-1] if k == 'pop' else stack) if s.startswith(t, p) else None
        if k == 'ref':
            return self.run(self.g[e[1]], p, stack, na)
        if k in ('seq', 'raw'):
            for x in e[1]:
                r = self.run(x, p, stack, na)
                if r is None:
                    return None
                p, stack = r
            return p, stack
        if k == 'cho':
            for x in e[1]:
                r = self.run(x, p, stack, na)
                if r is not None:
                    return r
            return None
        if k == 'star':
            while True:
                r = self.run(e[1], p, stack, na)
                if r is None:
                    return p, stack
                p, stack = r
        if k in ('not', 'and'):
            r = self.run(e[1], p, stack, na)
            return (p, stack) if (r is None) == (k == 'not') else None
        if k == 'push':
            r = self.run(e[1], p, stack, na)
            return None if r is None else (r[0], r[1] + (s[p:r[0]],))
        if k == 'rule':
            return self.run(e[2], p, stack, na)
        if k == 'atomic':
            return self.run(e[2], p, stack, e[1] == 'NonAtomic')
        if k == 'restore':
            return self.run(e[1], p, stack, na)
        if k == 'skip':
            return self.run(self.sk, p, stack, False) if na else (p, stack)
        raise peg.GrammarError('matching %s' % k)


WORDS = 48
CACHE = {}


def words(g, e, depth=6):
    """(texts of e, complete): complete if e has no other texts"""
    k = e[0]
    if k == 'str' or k == 'istr':
        return {e[1]}, True
    if k == 'range':
        if ord(e[2]) - ord(e[1]) < 40:
            return {chr(c) for c in range(ord(e[1]), ord(e[2]) + 1)}, True
        return {e[1], e[2]}, False
    if k in ('not', 'and', 'soi', 'eoi', 'skip'):
        return {''}, True
    if k == 'star':
        return cap({''} | words(g, e[1], depth)[0], False)
    if k == 'any':
        return {'x'}, False
    if k == 'prop':
        return {{'XID_START': 'x', 'XID_CONTINUE': '7', 'WHITE_SPACE': ' '}[e[1]]}, False
    if k == 'ref':
        if depth == 0 or e[1] not in g:
            return set(), False
        c = (id(g), e[1], depth)
        if c not in CACHE:
            CACHE[c] = words(g, g[e[1]], depth - 1)
        return CACHE[c]
    if k in ('seq', 'raw'):
        a, f = {''}, True
        for x in e[1]:
            b, h = words(g, x, depth)
            a, f = cap({y + z for y in a for z in b}, f and h)
        return a, f
    if k == 'cho':
        a, f = set(), True
        for x in e[1]:
            b, h = words(g, x, depth)
            a |= b
            f = f and h
        return cap(a, f)
    if k in ('rule', 'atomic'):
        return words(g, e[2], depth)
    if k in ('restore', 'push'):
        return words(g, e[1], depth)
    return set(), False


def cap(a, f):
    if len(a) <= WORDS:
        return a, f
    return set(sorted(a, key=lambda w: (len(w), w))[:WORDS]), False


def leads(g, e, seen=frozenset()):
    """rules e can begin with (at its very first position)"""
    k = e[0]
    if k == 'ref':
        return {e[1]} | (leads(g, g[e[1]], seen | {e[1]}) if e[1] in g and e[1] not in seen else set())
    if k in ('seq', 'raw'):
        out = set()
        for x in e[1]:
            out |= leads(g, x, seen)
            if not (x[0] in ('not', 'and') or nullable(g, x)):
                break
        return out
    if k == 'cho':
        return set().union(*[leads(g, x, seen) for x in e[1]])
    if k in ('rule', 'atomic'):
        return leads(g, e[2], seen)
    if k in ('star', 'restore', 'push'):
        return leads(g, e[1], seen)
    return set()


def nullable(g, e, N=None):
    """may succeed without consuming anything"""
    k = e[0]
    if k in ('str', 'istr'):
        return e[1] == ''
    if k in ('range', 'any', 'prop'):
        return False
    if k == 'ref':
        return e[1] in N if N is not None else (e[1] in NULL)
    if k in ('seq', 'raw'):
        return all(nullable(g, x, N) for x in e[1])
    if k == 'cho':
        return any(nullable(g, x, N) for x in e[1])
    if k in ('rule', 'atomic'):
        return nullable(g, e[2], N)
    if k in ('restore', 'push'):
        return nullable(g, e[1], N)
    return True         # star, not, and, soi, eoi, peek, pop, skip


NULL = set()


def set_nullable(g):
    N = set()
    while True:
        n = {r for r in g if nullable(g, g[r], N)}
        if n == N:
            break
        N = n
    NULL.clear()
    NULL.update(N)
    return N


# ------------------------------------------------------------ B03
def b03(progs, rep):
    """every alternative of every ordered choice can be chosen, and a longer
    operator is not cut short by an alternative before it"""
    x, g, st, sk = load(progs, rep)
    set_nullable(g)
    fin = inf = 0
    for r in sorted(g):
        for e in walk(g[r]):
            if e[0] != 'cho':
                continue
            for j, b in enumerate(e[1]):
                if b == EPS or j == 0:
                    continue
                ws, full = words(g, b)
                cut = []
                for w in sorted(ws):
                    m = Match(g, sk, w)
                    if m.run(b, 0, (), False) != (len(w), ()):
                        continue            # not a text this alternative accepts by itself
                    m = Match(g, sk, w)
                    got = m.run(e, 0, (), False)
                    if got is None or got[0] < len(w):
                        cut.append((w, w[:got[0]] if got else ''))
                    elif chosen(g, sk, e, w) < j and full and len(ws) == 1:
                        cut.append((w, w))
                fin, inf = fin + (1 if full else 0), inf + (0 if full else 1)
                rep.need(not cut, 'shadowed %s: %s' % (r, show(b)[:60]), 'rule %s (%s): alternative %s is not cut short by an earlier one%s' % (
                    r, x['spans'][r], show(b)[:80], '' if not cut else ': "%s" is read as "%s"' % cut[0]))
                # a branch that starts with a rule which an earlier alternative already accepts alone
                early = {a[1] for a in e[1][:j] if a[0] == 'ref'}
                dead = sorted(early & leads(g, b)) if b[0] != 'ref' or b[1] not in early else [b[1]]
                rep.need(not dead, 'dead branch %s: %s begins with %s' % (r, show(b)[:60], ','.join(dead)),
                         'rule %s (%s): alternative %s does not begin with an earlier alternative%s' % (
                             r, x['spans'][r], show(b)[:80], '' if not dead else ': texts beginning with %s are taken by the earlier alternative' % dead[0]))
    rep.info['alternatives_with_finite_language'] = fin
    rep.info['alternatives_sampled'] = inf


def chosen(g, sk, e, w):
    for i, a in enumerate(e[1]):
        if Match(g, sk, w).run(a, 0, (), False) is not None:
            return i
    return len(e[1])


# ------------------------------------------------------------ B04
DIGIT, WORD = 'digit', 'word'


def covers(e, cls, g):
    """single-character matcher that accepts every character of cls"""
    k = e[0]
    if k == 'any':
        return True
    if k == 'prop':
        return e[1] == 'XID_CONTINUE'
    if k == 'range':
        return cls == DIGIT and e[1] <= '0' and e[2] >= '9'
    if k == 'cho':
        return any(covers(x, cls, g) for x in e[1])
    if k in ('ref',):
        return e[1] in g and covers(g[e[1]], cls, g)
    if k in ('rule', 'atomic'):
        return covers(e[2], cls, g)
    return False


def ends_off(g, e, cls, seen=frozenset()):
    """after e succeeded, the next character is not in cls"""
    k = e[0]
    if k == 'not' or k == 'star':
        return covers(e[1], cls, g)
    if k in ('seq', 'raw'):
        for x in reversed(e[1]):
            if ends_off(g, x, cls, seen):
                return True
            if x[0] not in ('not', 'and'):
                return False
        return False
    if k == 'cho':
        return all(ends_off(g, x, cls, seen) for x in e[1])
    if k in ('rule', 'atomic'):
        return ends_off(g, e[2], cls, seen)
    if k in ('restore', 'push'):
        return ends_off(g, e[1], cls, seen)
    if k == 'ref':
        return e[1] in g and e[1] not in seen and ends_off(g, g[e[1]], cls, seen | {e[1]})
    return False


def may_start_word(g, e, seen=frozenset()):
    """can e begin with a character that continues a word"""
    k = e[0]
    if k in ('str', 'istr'):
        return e[1] == '' or is_prop('XID_CONTINUE', e[1][0])
    if k == 'range':
        return any(is_prop('XID_CONTINUE', chr(c)) for c in range(ord(e[1]), ord(e[2]) + 1))
    if k == 'prop':
        return e[1].startswith('XID')
    if k == 'any':
        return True
    if k == 'ref':
        if e[1] in seen:
            return False
        return e[1] not in g or may_start_word(g, g[e[1]], seen | {e[1]})
    if k in ('seq', 'raw'):
        for x in e[1]:
            if x[0] == 'not' and covers(x[1], WORD, g):
                return False
            if may_start_word(g, x, seen):
                return True
            if not nullable(g, x):
                return False
        return False
    if k == 'cho':
        return any(may_start_word(g, x, seen) for x in e[1])
    if k in ('rule', 'atomic'):
        return may_start_word(g, e[2], seen)
    if k in ('star', 'restore', 'push'):
        return may_start_word(g, e[1], seen)
    return False            # skip consumes blanks and comments only; not/and/soi/eoi nothing


def keyword(s):
    return len(s) > 1 and s.isidentifier()


def b04(progs, rep):
    x, g, st, sk = load(progs, rep)
    set_nullable(g)
    n = 0
    for r in sorted(g):
        ws, full = words(g, g[r])
        if full and ws and all(keyword(w) for w in ws):
            n += 1
            rep.need(ends_off(g, g[r], WORD), 'keyword ' + r, 'rule %s (%s): the keyword %s is read only as a whole word%s' % (
                r, x['spans'][r], '/'.join(sorted(ws)), '' if ends_off(g, g[r], WORD) else ', not when more letters follow'))
            continue
        for e in walk(g[r]):
            if e[0] not in ('seq', 'raw'):
                continue
            for i, y in enumerate(e[1]):
                if not keyword_item(y):
                    continue
                n += 1
                rest = ('seq', e[1][i + 1:])
                # the end of the sequence: what follows the rule is unknown
                okay = not may_start_word(g, rest) and not nullable(g, rest)
                rep.need(okay, 'keyword %s: %s' % (r, show(y)), 'rule %s (%s): the keyword %s is not read as a part of a longer word%s' % (
                    r, x['spans'][r], show(y), '' if okay else ': %s may follow with no gap' % show(rest)[:60]))
    rep.info['keyword_sites'] = n
    for r, cls, what in (('SYMBOL', WORD, 'letter or digit'), ('Integer', DIGIT, 'digit'), ('Decimal', DIGIT, 'digit'), ('Positive', DIGIT, 'digit')):
        if r not in g:
            rep.bad('missing ' + r, 'the grammar has no rule %s' % r)
            continue
        o = ends_off(g, g[r], cls)
        rep.need(o, 'token ' + r, 'rule %s (%s) takes every following %s into the same token%s' % (r, x['spans'][r], what, '' if o else ': one can be left behind'))


def keyword_item(y):
    if y[0] in ('str', 'istr'):
        return keyword(y[1])
    if y[0] == 'cho':
        return any(keyword_item(z) for z in y[1])
    return False


# ------------------------------------------------------------ B05
def b05(progs, rep):
    """no endless loop, no unbounded recursion without progress, no empty match stack"""
    x, g, st, sk = load(progs, rep)
    N = set_nullable(g)
    # left calls
    left = {}

    def lefts(e):
        k = e[0]
        if k == 'ref':
            return {e[1]}
        if k in ('seq', 'raw'):
            out = set()
            for y in e[1]:
                out |= lefts(y)
                if not nullable(g, y):
                    break
            return out
        if k == 'skip':
            return lefts(sk)
        out = set()
        for y in peg.kids(e):
            out |= lefts(y)
        return out
    for r in g:
        left[r] = lefts(g[r])
    for r in sorted(g):
        # can r call itself without consuming anything
        seen, todo, bad = set(), list(left[r]), False
        while todo:
            q = todo.pop()
            if q == r:
                bad = True
                break
            if q not in seen:
                seen.add(q)
                todo += left.get(q, ())
        rep.need(not bad, 'left recursion ' + r, 'rule %s (%s) does not call itself before consuming input' % (r, x['spans'][r]))
        stuck = [e for e in walk(g[r]) if e[0] == 'star' and nullable(g, e[1])]
        rep.need(not stuck, 'endless loop ' + r, 'rule %s (%s): every repetition consumes input%s' % (
            r, x['spans'][r], '' if not stuck else ': %s may match nothing for ever' % show(stuck[0])[:80]))
    stuck = [e for e in walk(sk) if e[0] == 'star' and nullable(g, e[1])]
    rep.need(not stuck, 'endless loop skip', 'skipping blanks and comments consumes input on every round')
    # depth of the match stack
    need = {r: 0 for r in g}

    def depth(e, d, out):
        """records refs and peeks below the entry depth; d entries pushed so far"""
        k = e[0]
        if k in ('peek', 'pop'):
            out.append(1 - d)
        if k == 'ref':
            out.append(need[e[1]] - d if e[1] in need else 0)
        if k in ('seq', 'raw'):
            for y in e[1]:
                depth(y, d, out)
                t = st.delta(y)
                d = d + t if t is not None else -99
            return
        for y in peg.kids(e):
            depth(y, d, out)
    for _ in range(200):
        ch = False
        for r in g:
            out = [0]
            depth(g[r], 0, out)
            v = min(max(out), 99)
            if v > need[r]:
                need[r], ch = v, True
        if not ch:
            break
    for r in sorted(reach(g, sk)):
        if need[r]:
            rep.good('rule %s (%s) needs %d entries of the match stack, its callers provide them' % (r, x['spans'][r], need[r]))
        neutral = r in st.neutral
        rep.need(neutral, 'match stack ' + r, 'rule %s (%s) leaves the match stack as it found it' % (r, x['spans'][r]))
    rep.need(need.get('program', 1) == 0, 'empty match stack', 'no text makes rule program (%s) consult an empty match stack' % x['spans'].get('program'))


# ------------------------------------------------------------ B02
# from the loosest to the tightest; Mathematica's order, as the documentation of OPERATORS says
LEVELS = [
    ('Right', ('Set',)),
    ('Left', ('Equal', 'Grater', 'GraterEqual')),
    ('Left', ('Plus', 'Minus')),
    ('Left', ('Multiply',)),
    ('Left', ('CenterDot',)),
    ('Left', ('Kronecker',)),
    ('Left', ('Divide', 'Quotient', 'Modulo')),
    ('Left', ('TensorProduct',)),
    ('Right', ('Power',)),
    ('Left', ('Dot',)),
]


def climbers(prog):
    """operator tables given to pest's precedence climber: name, span, [(rule, prec, assoc)]"""
    T = prog.types
    out = []
    for it in prog.d['items']:
        v = it.get('val')
        if v is None or it.get('ty') is None or 'PrecClimber<' not in (T[it['ty']].get('text') or ''):
            continue
        out.append((it['name'], it['span'], None if not isinstance(v, dict) else table(prog, v)))
    return out


def table(prog, v):
    arr = find_array(v)
    if arr is None:
        return None
    rows = []
    for t in arr:
        if not (isinstance(t, dict) and 'tuple' in t and len(t['tuple']) == 3):
            return None
        r, p, a = t['tuple']
        rows.append((prog.types[r['adt']]['variants'][r['variant']]['name'], p['int'], prog.types[a['adt']]['variants'][a['variant']]['name']))
    return rows


def find_array(v):
    if isinstance(v, dict):
        if 'array' in v:
            return v['array']
        for k in ('ref', 'fields'):
            if k in v:
                r = find_array(v[k])
                if r is not None:
                    return r
    if isinstance(v, list):
        for y in v:
            r = find_array(y)
            if r is not None:
                return r
    return None


def infix_tokens(g, sk):
    """(primaries, operators) if the children of expr are p (o p)*"""
    import lang
    t, acc = lang.dfa(peg.children(g, 'expr', sk))
    prim, ops = set(), set()
    seen, todo = {(0, 0)}, [(0, 0)]
    while todo:
        s, par = todo.pop()
        if s in acc and par == 0:
            return None
        for a, n in t[s].items():
            (prim if par == 0 else ops).add(a)
            if (n, 1 - par) not in seen:
                seen.add((n, 1 - par))
                todo.append((n, 1 - par))
    return None if prim & ops else (prim, ops)


def b02(progs, rep):
    x, g, st, sk = load(progs, rep)
    set_nullable(g)
    pr = infix_tokens(g, sk)
    if not rep.need(pr is not None, 'expr shape', 'the tokens of rule expr (%s) alternate between operands and operators' % x['spans'].get('expr')):
        return
    cl = climbers(progs['ast'])
    rep.need(cl, 'no climber', 'sm-ast has a table of operator precedences')
    for name, span, rows in cl:
        if rows is None:
            rep.bad('undecided ' + name, '%s (%s): the operator table cannot be evaluated' % (name, span))
            continue
        where = '%s (%s)' % (name, span)
        prec = {}
        for r, p, a in rows:
            prec.setdefault(r, (p, a))
        for o in sorted(pr[1]):
            rep.need(o in prec, 'operator without precedence ' + o, '%s gives a precedence to operator %s, which expressions may contain' % (where, o))
        assoc_at = {}
        for o, (p, a) in prec.items():
            if o in pr[1]:
                assoc_at.setdefault(p, {}).setdefault(a, []).append(o)
        for p, d in sorted(assoc_at.items()):
            rep.need(len(d) == 1, 'mixed associativity %d' % p, '%s: operators of precedence %d associate the same way (%s)' % (where, p, d))
        last = None
        for a, ops in LEVELS:
            have = [o for o in ops if o in prec and o in pr[1]]
            for o in have:
                rep.need(prec[o][1] == a, 'associativity ' + o, '%s: operator %s associates to the %s' % (where, o, a.lower()))
            ps = {prec[o][0] for o in have}
            rep.need(len(ps) <= 1, 'unequal ' + '/'.join(have), '%s: operators %s bind equally' % (where, ', '.join(have)))
            if ps:
                if last:
                    rep.need(last[0] < min(ps), 'order %s' % '/'.join(have), '%s: %s bind tighter than %s' % (where, ', '.join(have), last[1]))
                last = (max(ps), ', '.join(have))
    rep.info['operators'] = sorted(pr[1])
    rep.info['tables'] = [c[0] for c in cl]
