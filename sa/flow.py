"""Abstract interpreter for code over trees, texts and sequences (crate sm-ast).

Values are hashable tuples:
  ('i', n) ints / bools / discriminants      ('n', c, name, kind)  name + c
  ('b', name) unknown bool                   ('ch', c) / ('cv', name) characters
  ('str', pieces)  text                      ('tup', fs) ('adt', tid, variant, fs)
  ('o', name, tid) unknown value of a type   ('vref', v) shared reference / ('ref', cell, path) &mut
  ('box', v) ('boxc', cell)                  ('seq', parts) Vec, slice, array
  ('it', parts) iterator                     ('map', base, ops)
  ('pair', name, rule) token of the parser   ('clo', inst, caps) ('fn', tid)
Sequences are parts ('e', v) and ('m', src, branches): for every element of src
(an unbounded source) the parts of the branch whose condition holds; branches
mention the element as ('el', src).  Texts are pieces likewise ('tm' instead of
'm').  A loop over an unbounded source is replaced by the image of the source
under its body (branch per path); what is not of that form becomes a fold."""
import sys
import text as T

sys.setrecursionlimit(20000)


class Giveup(Exception):
    pass


RET, PANIC, BACK, EXIT = 'ret', 'panic', 'back', 'exit'
UNIT = ('tup', ())
TRUE, FALSE = ('i', 1), ('i', 0)


class St:
    __slots__ = ('cells', 'facts', 'stack', 'active', 'pops', 'loop')

    def __init__(self):
        self.cells, self.facts, self.stack, self.active, self.pops, self.loop = {}, {}, (), frozenset(), (), frozenset()

    def copy(self):
        s = St()
        s.cells, s.facts = dict(self.cells), dict(self.facts)
        s.stack, s.active, s.pops, s.loop = self.stack, self.active, self.pops, self.loop
        return s


class Out:
    __slots__ = ('kind', 'st', 'val', 'span')

    def __init__(self, kind, st, val=None, span=None):
        self.kind, self.st, self.val, self.span = kind, st, val, span

    def __repr__(self):
        return 'Out(%s %r %s)' % (self.kind, self.val, self.span)


# ------------------------------------------------------------ terms
def base_src(src):
    while src[0] == 'rev':
        src = src[1]
    return src


def root_src(src):
    """the source a slice or reversal is taken from"""
    while src[0] in ('rev', 'slice'):
        src = src[1]
    return src


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(contains(y, x) for y in t if isinstance(y, (tuple, frozenset)))
    return False


def subst(t, m, splice=None):
    """replace subterms; `splice` maps sequence parts / text pieces to tuples of parts"""
    if isinstance(t, frozenset):
        return frozenset(subst(x, m, splice) for x in t)
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if len(t) == 4 and t[0] == 'n' and ('count', t[2]) in m:
        c, nm = m[('count', t[2])]
        return ('i', t[1] + c) if nm is None else ('n', t[1] + c, nm, t[3])
    if t and t[0] in ('seq', 'it') and splice:
        return (t[0], sub_parts(t[1], m, splice))
    if t and t[0] == 'str':
        return mkstr(sub_parts(t[1], m, splice or {}))
    return tuple(subst(x, m, splice) for x in t)


def sub_parts(ps, m, splice):
    out = []
    for p in ps:
        if p in splice:
            out += splice[p]
        elif isinstance(p, tuple) and p and p[0] in ('m', 'tm'):
            out.append((p[0], subst(p[1], m, splice), tuple((subst(c, m, splice), sub_parts(q, m, splice)) for c, q in p[2])))
        else:
            out.append(subst(p, m, splice))
    return tuple(out)


def mkstr(pieces):
    out = []
    for p in pieces:
        if isinstance(p, tuple) and p[0] == 'ch':
            p = p[1]
        if isinstance(p, str):
            if p == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return ('str', tuple(out))


def S(s):
    return ('str', (s,) if s else ())


def litof(v):
    """the constant text of v, or None"""
    if v[0] == 'str':
        if not v[1]:
            return ''
        if len(v[1]) == 1 and isinstance(v[1][0], str):
            return v[1][0]
    return None


def vref(v):
    return ('vref', v)


class Flow:
    MAXSTEP = 400000

    def __init__(self, prog, grammar=None, languages=None):
        self.P = prog
        self.types = prog.types
        self.kids_of = {} if grammar is None else grammar        # rule -> list of paths of ('e', frozenset rules)/('seg', ...)
        self.lang_of_rule = {} if languages is None else languages
        self.fid = 0
        self.lid = 0
        self.steps = 0
        self.funcs = set()
        self.unmodelled = {}
        self.infix_ops = frozenset()        # rules that are operators to the climber
        self.kid_text = None                # (rule, kinds of children) -> language of the text, or None
        self.invariant = None               # hook(I, st, value, variant): facts about an unknown value
        self.rel = None                     # hook(st, a, b) -> [(state, -1 | 0 | 1)] or None
        self.ordering_tid = None
        self.cut = None                     # hook(inst, args, st, rty) -> outcomes or None
        self.extern = {}                    # transfer functions of another crate's functions, by key
        self.climbs = []                    # recorded uses of the operator climber
        self.t_cache = {}
        self.displays = {}
        self.clone_ok = {}
        for i, b in prog.bodies.items():
            n = b['name']
            if n.endswith('::fmt') and 'Display' in n and b['body']['argc'] == 2:
                t = self.strip(b['body']['locals'][1])
                self.displays[t] = i
        self.strt = self.tid(lambda t: t['k'] == 'str')
        self.charT = self.tid(lambda t: t['k'] == 'char')
        import flowlib
        self.lib = flowlib
        self.cond_keep = None

    # ------------------------------------------------------------ types
    def tid(self, f):
        for i, t in enumerate(self.types):
            if f(t):
                return i
        return None

    def tname(self, t):
        if t is None:
            return '?'
        d = self.types[t]
        return d.get('adt') or d.get('text') or d['k']

    def strip(self, t):
        while self.types[t]['k'] in ('ref', 'ptr'):
            t = self.types[t]['el']
        return t

    def last(self, t):
        """last path segment of an adt type, or ''"""
        if t is None:
            return ''
        d = self.types[t]
        return d['adt'].split('::')[-1] if d['k'] == 'adt' else ''

    def find_adt(self, name):
        return self.tid(lambda t: t['k'] == 'adt' and t['adt'].split('::')[-1] == name and 'sm_' in t['adt'])

    def variant(self, tid, name):
        for i, v in enumerate(self.types[tid]['variants']):
            if v['name'] == name:
                return i
        raise KeyError(name)

    def fields(self, tid, vi):
        """types of the fields of a variant (None: unknown)"""
        d = self.types[tid]
        n = d['adt'].split('::')[-1]
        fs = d['variants'][vi]['fields']
        a = d['args']
        if n == 'Option':
            return [a[0]] if d['variants'][vi]['name'] == 'Some' else []
        if n == 'Result':
            return [a[0] if d['variants'][vi]['name'] == 'Ok' else a[1]]
        if n == 'ControlFlow':
            return [a[1] if d['variants'][vi]['name'] == 'Continue' else a[0]]
        return [f[1] for f in fs]

    def opaque(self, name, tid):
        """arbitrary value of a type, named"""
        if tid is None:
            return ('o', name, None)
        d = self.types[tid]
        k = d['k']
        if k in ('ref', 'ptr'):
            return vref(self.opaque(name, d['el']))
        if k == 'bool':
            return ('b', name)
        if k == 'int':
            return ('n', 0, name, (('i' if d['signed'] else 'u'), d['bits']))
        if k == 'char':
            return ('cv', name)
        if k == 'str':
            return ('str', (('t', name),))
        if k == 'tuple':
            return ('tup', tuple(self.opaque(('fd', name, 0, i), t) for i, t in enumerate(d['el'])))
        if k in ('slice', 'array'):
            return ('seq', (self.ident(('v', name, d['el'])),))
        if k == 'adt':
            n = self.last(tid)
            if n == 'String':
                return ('str', (('t', name),))
            if n == 'Box':
                e = d['args'][0]
                if self.types[e]['k'] in ('str', 'slice'):
                    return self.opaque(name, e)
                return ('box', self.opaque(name, e))
            if n in ('Vec', 'VecDeque'):
                return ('seq', (self.ident(('v', name, d['args'][0])),))
            if n in ('BTreeMap', 'HashMap'):
                return ('map', (name, d['args'][0], d['args'][1]), ())
            if n in ('BigInt', 'BigUint'):
                return ('n', 0, name, 'B' if n == 'BigInt' else 'U')
        return ('o', name, tid)

    def el(self, src):
        """the generic element of a source (not for token segments)"""
        n = ('el', base_src(src))
        s = root_src(src)
        if s[0] == 'v':
            return self.opaque(n, s[2])
        if s[0] == 'cseg':
            return ('cv', n)
        if s[0] in ('split', 'lines'):
            return ('str', (('t', n),))
        if s[0] == 'items':
            return ('tup', (vref(self.opaque(('fd', n, 0, 0), s[2])), vref(self.opaque(('fd', n, 0, 1), s[3]))))
        raise Giveup('element of %r' % (s,))

    def ident(self, src):
        """the sequence of all elements of a source, as one part"""
        s = base_src(src)
        if root_src(s)[0] == 'seg':
            br = tuple((frozenset([(('rule', ('el', s)), r)]), (('e', ('pair', ('el', s), r)),)) for r in root_src(s)[3])
        else:
            br = ((frozenset(), (('e', self.el(s)),)),)
        return ('m', src, br)

    def is_ident(self, p):
        return p[0] == 'm' and p == self.ident(p[1])

    def src_ne(self, src):
        """known nonempty?"""
        s = base_src(src)
        if s[0] == 'seg':
            return s[4]
        if s[0] == 'cseg':
            return s[4]
        return s[0] == 'split'

    # ------------------------------------------------------------ facts
    def fact(self, st, k):
        return st.facts.get(k)

    def rng(self, kind):
        if kind == 'B':
            return None, None
        if kind == 'U':
            return 0, None
        if kind == 'len':
            return 0, (1 << 63) - 1
        s, b = kind
        return (0, (1 << b) - 1) if s == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)

    def interval(self, st, name, kind):
        r = st.facts.get(('iv', name))
        if r is not None:
            return r
        lo, hi = self.rng(kind)
        if isinstance(name, tuple) and name[0] == 'len':
            p = name[1]
            if p[0] == 'm' and self.src_ne(p[1]) and all(any(q[0] == 'e' for q in b[1]) for b in p[2]) \
                    and (base_src(p[1])[0] != 'seg' or len(p[2]) == len(base_src(p[1])[3])):
                lo = 1
        return (lo, hi, frozenset())

    def ints(self, st, v):
        """(lo, hi) of an int value"""
        if v[0] == 'i':
            return v[1], v[1]
        if v[0] == 'n':
            lo, hi, _ = self.interval(st, v[2], v[3])
            return (None if lo is None else lo + v[1]), (None if hi is None else hi + v[1])
        raise Giveup('not an int: %r' % (v,))

    def nrm(self, st, v):
        if v[0] == 'n':
            lo, hi, _ = self.interval(st, v[2], v[3])
            if lo is not None and lo == hi:
                return ('i', lo + v[1])
        elif v[0] == 'b':
            f = st.facts.get(('b', v[1]))
            if f is not None:
                return ('i', int(f))
        elif v[0] == 'cv':
            s = self.cset(st, v[1])
            if len(s) == 1:
                a = next(iter(s))
                if T.exact(a):
                    return ('ch', a)
        return v

    def narrow(self, st, v, lo, hi, ne=()):
        """state with the int v restricted (or None); v = ('n', c, name, kind)"""
        c = v[1]
        a, b, x = self.interval(st, v[2], v[3])
        if lo is not None and (a is None or lo - c > a):
            a = lo - c
        if hi is not None and (b is None or hi - c < b):
            b = hi - c
        x = x | frozenset(n - c for n in ne)
        while a is not None and a in x:
            a += 1
        while b is not None and b in x:
            b -= 1
        if a is not None and b is not None and a > b:
            return None
        s = st.copy()
        s.facts[('iv', v[2])] = (a, b, frozenset(n for n in x if (a is None or n > a) and (b is None or n < b)))
        return s

    def cmp(self, st, op, a, b):
        """list of (state, bool) deciding an int comparison"""
        a, b = self.nrm(st, a), self.nrm(st, b)
        if op in ('Gt', 'Ge'):
            return self.cmp(st, {'Gt': 'Lt', 'Ge': 'Le'}[op], b, a)
        if op == 'Ne':
            return [(s, not r) for s, r in self.cmp(st, 'Eq', a, b)]
        if a[0] == 'i' and b[0] == 'i':
            return [(st, {'Lt': a[1] < b[1], 'Le': a[1] <= b[1], 'Eq': a[1] == b[1]}[op])]
        if a[0] == 'n' and b[0] == 'n' and a[2] == b[2]:
            return [(st, {'Lt': a[1] < b[1], 'Le': a[1] <= b[1], 'Eq': a[1] == b[1]}[op])]
        if a[0] not in ('i', 'n') or b[0] not in ('i', 'n'):
            raise Giveup('comparison of %r and %r' % (a, b))
        if a[0] == 'n' and b[0] == 'n':
            al, ah = self.ints(st, a)
            bl, bh = self.ints(st, b)
            if op == 'Lt':
                if ah is not None and bl is not None and ah < bl:
                    return [(st, True)]
                if al is not None and bh is not None and al >= bh:
                    return [(st, False)]
            key = ('b', ('cmp', op, a, b))
            f = st.facts.get(key)
            if f is not None:
                return [(st, f)]
            out = []
            for v in (True, False):
                s = st.copy()
                s.facts[key] = v
                out.append((s, v))
            return out
        out = []
        if op == 'Eq':
            v, n = (a, b[1]) if a[0] == 'n' else (b, a[1])
            s = self.narrow(st, v, n, n)
            # n may be excluded
            if s is not None and n - v[1] not in self.interval(st, v[2], v[3])[2]:
                out.append((s, True))
            s = self.narrow(st, v, None, None, (n,))
            if s is not None:
                out.append((s, False))
            return out
        if a[0] == 'n':
            n = b[1] - 1 if op == 'Lt' else b[1]
            yes, no = self.narrow(st, a, None, n), self.narrow(st, a, n + 1, None)
        else:
            n = a[1] + 1 if op == 'Lt' else a[1]
            yes, no = self.narrow(st, b, n, None), self.narrow(st, b, None, n - 1)
        if yes is not None:
            out.append((yes, True))
        if no is not None:
            out.append((no, False))
        return out

    def truth(self, st, v):
        """list of (state, bool)"""
        v = self.nrm(st, v)
        if v[0] == 'i':
            return [(st, bool(v[1]))]
        if v[0] == 'b':
            out = []
            for x in (True, False):
                s = st.copy()
                s.facts[('b', v[1])] = x
                out.append((s, x))
            return out
        raise Giveup('condition %r' % (v,))

    # characters and texts
    def cset(self, st, name):
        s = st.facts.get(('S', name))
        if s is not None:
            return s
        if name[0] in ('el', 'at') and root_src(name[1])[0] == 'cseg':
            return frozenset(root_src(name[1])[3])
        if name[0] == 'chr':
            return frozenset(name[3])
        return T.sigma()

    def with_set(self, st, name, s):
        if not s:
            return None
        if s == self.cset(st, name):
            return st
        n = st.copy()
        n.facts[('S', name)] = frozenset(s)
        return n

    def char_is(self, st, v, pred):
        """split on a predicate of symbols (None = may be either for characters of that class)"""
        if v[0] == 'i':
            v = ('ch', chr(v[1]))
        if v[0] == 'ch':
            return [(st, bool(pred(T.symof(v[1]))))]
        s = self.cset(st, v[1])
        yes = {a for a in s if pred(a) is not False}
        no = {a for a in s if pred(a) is not True}
        out = []
        a = self.with_set(st, v[1], yes)
        b = self.with_set(st, v[1], no)
        if a is not None:
            out.append((a, True))
        if b is not None:
            out.append((b, False))
        return out

    def char_eq(self, st, a, b):
        a, b = self.nrm(st, a), self.nrm(st, b)
        a = ('ch', chr(a[1])) if a[0] == 'i' else a
        b = ('ch', chr(b[1])) if b[0] == 'i' else b
        if a[0] == 'ch' and b[0] == 'ch':
            return [(st, a[1] == b[1])]
        if a[0] == 'ch':
            a, b = b, a
        if b[0] == 'ch':
            x = T.symof(b[1])
            return self.char_is(st, a, lambda s: (None if not T.exact(s) else True) if s == x else False)
        if a == b:
            return [(st, True)]
        return self.truth(st, ('b', ('ceq',) + tuple(sorted((a, b), key=repr))))

    def tlang(self, st, name):
        L = st.facts.get(('L', name))
        if L is not None:
            return L
        k = name[0] if isinstance(name, tuple) else None
        if k == 'text':
            return self.lang_of_rule.get(name[2], T.top())
        if k == 'sub':
            L = self.tlang(st, name[1])
            if name[2]:
                L = T.drop_front(L, name[2])
                L = L[0] if L else T.top()
            if name[3]:
                L = T.drop_back(L, name[3])
                L = L[0] if L else T.top()
            return L
        return T.top()

    def with_lang(self, st, name, L):
        if T.empty(L):
            return None
        if L == self.tlang(st, name):
            return st
        if isinstance(name, tuple) and name[0] == 'sub':
            # what is known about a part is known about the whole (the ends cut off are one byte per character)
            one = ('set', T.sigma())
            K = T.concat(T.concat(T.rx(('seq', [one] * name[2])), L), T.rx(('seq', [one] * name[3])))
            return self.with_lang(st, name[1], T.inter(self.tlang(st, name[1]), K))
        s = st.copy()
        s.facts[('L', name)] = L
        return s

    def tnorm(self, st, v):
        """text with what the facts determine filled in"""
        out = []
        for p in v[1]:
            if isinstance(p, tuple):
                if p[0] == 't':
                    w = T.word(self.tlang(st, p[1]))
                    if w is not None:
                        p = w
                elif p[0] == 'cv':
                    p = self.nrm(st, p)
                elif p[0] == 'dec':
                    d = self.nrm(st, p[1])
                    if d[0] == 'i':
                        p = str(d[1])
            out.append(p)
        return mkstr(out)

    def piece_lang(self, st, p):
        if isinstance(p, str):
            return T.lit(p)
        if p[0] == 't':
            return self.tlang(st, p[1])
        if p[0] == 'cv':
            return T.rx(('set', self.cset(st, p[1])))
        if p[0] == 'ch':
            return T.lit(p[1])
        if p[0] == 'disp' and p[1] in self.named:
            return T.minus(T.top(), T.lit(''))
        if p[0] == 'dec':
            d = frozenset('0123456789')
            lo, _ = self.ints(st, p[1]) if p[1][0] in ('i', 'n') else (None, None)
            ds = ('seq', [('set', d), ('star', ('set', d))])
            return T.rx(ds if lo is not None and lo >= 0 else ('seq', [('alt', [('eps',), ('sym', '-')]), ds]))
        if p[0] == 'tm':
            s = base_src(p[1])
            if s[0] == 'cseg':
                al, total = set(), 0
                el = ('cv', ('el', s))
                for c, q in p[2]:
                    if q != (el,):
                        return T.top()
                    f = dict(c).get(('S', ('el', s)))
                    al |= set(f) if f is not None else set(s[3])
                    total |= 1
                ne = s[4] and al == set(s[3])
                return T.seg(frozenset(al), ne) if al else T.lit('')
        return T.top()

    def text_lang(self, st, v):
        L = T.lit('')
        for p in v[1]:
            L = T.concat(L, self.piece_lang(st, p))
        return L

    def in_lang(self, st, v, K):
        """split on membership of the text in the language K"""
        v = self.tnorm(st, v)
        ps = v[1]
        if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][0] == 't':
            n = ps[0][1]
            L = self.tlang(st, n)
            out = []
            a = self.with_lang(st, n, T.inter(L, K))
            b = self.with_lang(st, n, T.minus(L, K))
            if a is not None:
                out.append((a, True))
            if b is not None:
                out.append((b, False))
            return out
        if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][0] == 'cv':
            n = ps[0][1]
            s = self.cset(st, n)
            yes = {a for a in s if not T.empty(T.inter(T.rx(('sym', a)), K))}
            no = {a for a in s if not T.empty(T.minus(T.rx(('sym', a)), K))}
            out = []
            for z, r in ((yes, True), (no, False)):
                q = self.with_set(st, n, z)
                if q is not None:
                    out.append((q, r))
            return out
        L = self.text_lang(st, v)
        if T.within(L, K):
            return [(st, True)]
        if T.empty(T.inter(L, K)):
            return [(st, False)]
        w = T.word(K)
        if w is not None and all(isinstance(p, str) or p[0] in ('cv', 'ch') for p in ps):
            cs = []
            for p in ps:
                cs += list(p) if isinstance(p, str) else [p]
            if len(cs) != len(w):
                return [(st, False)]
            out, live = [], [st]
            for c, x in zip(cs, w):
                nxt = []
                for s in live:
                    if isinstance(c, str) or c[0] == 'ch':
                        (nxt if (c if isinstance(c, str) else c[1]) == x else out).append(s)
                        continue
                    for s2, r in self.char_is(s, c, lambda a: (T.symof(x) == a) if T.exact(T.symof(x)) else None if T.symof(x) == a else False):
                        (nxt if r else out).append(s2)
                live = nxt
            return [(s, True) for s in live] + [(s, False) for s in out]
        return self.truth(st, ('b', ('in', v, K)))

    def text_eq(self, st, a, b):
        a, b = self.tnorm(st, a), self.tnorm(st, b)
        if a == b:
            return [(st, True)]
        la, lb = litof(a), litof(b)
        if la is not None and lb is not None:
            return [(st, la == lb)]
        if la is not None:
            a, b, la, lb = b, a, lb, la
        if lb is not None:
            if all(T.exact(T.symof(c)) for c in lb):
                return self.in_lang(st, a, T.lit(lb))
        if T.empty(T.inter(self.text_lang(st, a), self.text_lang(st, b))):
            return [(st, False)]
        return self.truth(st, ('b', ('teq',) + tuple(sorted((a, b), key=repr))))

    # ------------------------------------------------------------ opaque adts
    def expand(self, st, v):
        """list of (state, adt) for an unknown adt value"""
        if v[0] != 'o':
            return [(st, v)]
        f = st.facts.get(('exp', v[1]))
        if f is not None:
            return [(st, self.expanded(v, f))]
        d = self.types[v[2]] if v[2] is not None else None
        if d is None or d['k'] != 'adt' or d['kind'] == 'union' or not d['variants']:
            raise Giveup('structure of %r' % (v,))
        ex = st.facts.get(('nexp', v[1]), frozenset())
        out = []
        for vi in range(len(d['variants'])):
            if vi in ex:
                continue
            s = st.copy()
            if d['kind'] == 'enum':
                s.facts[('exp', v[1])] = vi
                if self.invariant:
                    self.invariant(self, s, v, vi)
            out.append((s, self.expanded(v, vi)))
        return out

    def expanded(self, v, vi):
        fs = self.fields(v[2], vi)
        if fs and any(f is None for f in fs):
            raise Giveup('fields of %s' % self.tname(v[2]))
        return ('adt', v[2], vi, tuple(self.opaque(('fd', v[1], vi, i), t) for i, t in enumerate(fs)))

    def mkadt(self, tid, vi, fs):
        """an aggregate; folds back into the opaque value it is a copy of"""
        if fs and tid is not None:
            ts = None
            for i, f in enumerate(fs):
                n = self.fdname(f)
                if n is None or n[2] != vi or n[3] != i:
                    return ('adt', tid, vi, tuple(fs))
                if ts is None:
                    ts = n[1]
                elif ts != n[1]:
                    return ('adt', tid, vi, tuple(fs))
            o = ('o', ts, tid)
            try:
                if self.expanded(o, vi)[3] == tuple(fs):
                    return o
            except Giveup:
                pass
        return ('adt', tid, vi, tuple(fs))

    def fdname(self, f):
        k = f[0]
        n = None
        if k == 'o':
            n = f[1]
        elif k == 'str' and len(f[1]) == 1 and isinstance(f[1][0], tuple) and f[1][0][0] == 't':
            n = f[1][0][1]
        elif k == 'seq' and len(f[1]) == 1 and f[1][0][0] == 'm' and f[1][0][1][0] == 'v':
            n = f[1][0][1][1]
        elif k == 'n' and f[1] == 0:
            n = f[2]
        elif k in ('b', 'cv'):
            n = f[1]
        elif k == 'map' and not f[2] and f[1] is not None:
            n = f[1][0]
        elif k in ('vref', 'box'):
            return self.fdname(f[1])
        elif k == 'tup' and f[1]:
            ns = [self.fdname(x) for x in f[1]]
            if all(x is not None and x[2] == 0 and x[3] == i and x[1] == ns[0][1] for i, x in enumerate(ns)):
                n = ns[0][1]
        return n if isinstance(n, tuple) and n and n[0] == 'fd' else None

    # ------------------------------------------------------------ places
    def norm_e(self, fr, st, e):
        if e == '*' or e[0] == '*':
            return ('*',)
        if e[0] == 'i':
            return ('ix', st.cells.get((fr, e[1])))
        if e[0] == 'c':
            return ('ix', ('i', e[1])) if not e[3] else ('ixe', e[1])
        if e[0] == 's':
            return ('sub', e[1], e[2], e[3])
        return tuple(e)

    def deref(self, st, v):
        k = v[0]
        if k == 'vref' or k == 'box':
            return v[1]
        if k == 'ref':
            return self.getp(st, st.cells.get(v[1], ('unk', 'dead')), v[2])
        if k == 'boxc':
            return st.cells.get(v[1], ('unk', 'box'))
        if k in ('str', 'seq'):
            return v                    # Box<str>, Box<[T]>
        if k == 'unk':
            return v
        raise Giveup('dereference of %r' % (v,))

    def D(self, st, v):
        while v[0] in ('vref', 'ref', 'box', 'boxc'):
            v = self.deref(st, v)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == '*':
            return self.deref(st, v)
        if k == 'v':
            return v
        if k == 'f':
            if v[0] == 'tup':
                return v[1][e[1]]
            if v[0] == 'adt':
                return v[3][e[1]]
            if v[0] == 'clo':
                return v[2][e[1]]
            if v[0] == 'boxc' or v[0] == 'box':
                return v                # the pointer inside the box
            if v[0] in ('str', 'seq') and len(e) > 2 and e[1] == 0 and self.last(e[2]) in ('BoxRaw', 'Unique', 'NonNull', ''):
                return v                # the pointer inside a Box<str> or Box<[T]>
            if v[0] == 'o':
                f = st.facts.get(('exp', v[1]))
                d = self.types[v[2]] if v[2] is not None else None
                if f is None and d is not None and d['k'] == 'adt' and d['kind'] == 'struct':
                    f = 0
                if f is None:
                    raise Giveup('field of undetermined %r' % (v,))
                return self.expanded(v, f)[3][e[1]]
            if v[0] == 'unk':
                return v
            raise Giveup('field %r of %r' % (e, v))
        if k in ('ix', 'ixe'):
            if v[0] != 'seq':
                raise Giveup('index of %r' % (v,))
            r = self.at(st, v, e[1] if k == 'ix' else ('i', -e[1]), fromend=(k == 'ixe'))
            if r is None:
                raise Giveup('element %r of %r' % (e, v))
            return r
        if k == 'sub':
            return self.subseq(st, v, e[1], e[2] if e[3] else None, None if e[3] else e[2])
        raise Giveup('projection %r' % (e,))

    def getp(self, st, v, path):
        for e in path:
            v = self.proj(st, v, e)
        return v

    def setp(self, st, v, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        k = e[0]
        if k == 'v':
            return self.setp(st, v, rest, new)
        if k == '*':
            if v[0] in ('box', 'vref'):
                return (v[0], self.setp(st, v[1], rest, new))
            raise Giveup('write through %r' % (v,))
        if k == 'f':
            if v[0] == 'o':
                v = ('adt', v[2], st.facts.get(('exp', v[1]), 0), self.getfields(st, v))
            if v[0] == 'tup':
                fs = list(v[1])
                fs[e[1]] = self.setp(st, fs[e[1]], rest, new)
                return ('tup', tuple(fs))
            if v[0] == 'adt':
                fs = list(v[3])
                fs[e[1]] = self.setp(st, fs[e[1]], rest, new)
                return ('adt', v[1], v[2], tuple(fs))
            if v[0] == 'clo':
                fs = list(v[2])
                fs[e[1]] = self.setp(st, fs[e[1]], rest, new)
                return ('clo', v[1], tuple(fs))
            if v[0] == 'unk':
                # a value being initialised field by field: allow single-field wrappers
                return self.setp(st, v, rest, new)
        if k in ('ix', 'ixe'):
            if v[0] == 'seq':
                i = e[1][1] if e[1][0] == 'i' and k == 'ix' else None
                ps = self.parts(st, v)
                if k == 'ixe':
                    i = len(ps) - e[1]
                if i is not None and 0 <= i < len(ps) and all(p[0] == 'e' for p in (ps[:i + 1] if k == 'ix' else ps[i:])):
                    ps = list(ps)
                    ps[i] = ('e', self.setp(st, ps[i][1], rest, new))
                    return ('seq', tuple(ps))
                if i == 0 and len(ps) == 1 and self.is_ident(ps[0]) and self.ints(st, self.length(st, v))[0] >= 1:
                    old = self.at(st, v, ('i', 0))
                    return ('seq', (('e', self.setp(st, old, rest, new)), self.ident(self.slice_src(ps[0][1], 1, 0))))
        raise Giveup('write to %r of %r' % (e, v))

    def getfields(self, st, v):
        f = st.facts.get(('exp', v[1]), 0)
        return self.expanded(v, f)[3]

    def lvalue(self, fr, st, place):
        """('c', cell, path) or ('v', value)"""
        cell, path, val = (fr, place[0]), [], None
        for e in place[1]:
            e = self.norm_e(fr, st, e)
            if val is not None:
                val = self.proj(st, val, e)
                continue
            if e[0] == '*':
                cur = self.getp(st, st.cells.get(cell, ('unk', 'uninit')), path)
                if cur[0] == 'ref':
                    cell, path = cur[1], list(cur[2])
                elif cur[0] == 'boxc':
                    cell, path = cur[1], []
                elif cur[0] == 'box':
                    path.append(e)
                else:
                    val = self.deref(st, cur)
            else:
                path.append(e)
        if val is not None:
            return ('v', val)
        return ('c', cell, tuple(path))

    def read(self, fr, st, place):
        v = st.cells.get((fr, place[0]))
        if v is None:
            v = ('unk', 'uninitialised')
        for e in place[1]:
            v = self.proj(st, v, self.norm_e(fr, st, e))
        return v

    def write(self, st, cell, path, new):
        if not path:
            st.cells[cell] = new
        else:
            old = st.cells.get(cell, ('unk', 'uninit'))
            st.cells[cell] = new if old[0] == 'unk' and old[1] == 'box-uninit' else self.setp(st, old, path, new)

    def assign(self, fr, st, place, v):
        lv = self.lvalue(fr, st, place)
        if lv[0] == 'v':
            raise Giveup('write through a shared reference')
        self.write(st, lv[1], lv[2], v)

    def heap(self, st, v):
        self.fid += 1
        c = ('h', self.fid)
        st.cells[c] = v
        return c

    # ------------------------------------------------------------ sequences
    def parts(self, st, v):
        """parts with sources of known small length spelled out"""
        out = []
        for p in v[1]:
            if p[0] == 'm':
                s = p[1]
                n = st.facts.get(('iv', ('len', self.ident(s))))
                if n is not None and n[0] == n[1] and n[0] <= 16 and root_src(s)[0] in ('v', 'split', 'cseg'):
                    b = base_src(s)
                    els = [self.at_src(b, i) for i in range(n[0])]
                    if s[0] == 'rev':
                        els.reverse()
                    ok = True
                    for e in els:
                        m = {('el', b): self.el_name(b, els.index(e))}
                        brs = [q for c, q in p[2] if not c]
                        if len(p[2]) == 1 and not p[2][0][0]:
                            out += sub_parts(p[2][0][1], m, {})
                        else:
                            q = self.pick(st, p[2], m)
                            if q is None:
                                ok = False
                                break
                            out += q
                    if ok:
                        continue
                    raise Giveup('branching elements of a sequence of known length')
                if n is not None and n[1] == 0:
                    continue
            out.append(p)
        return tuple(out)

    def pick(self, st, branches, m):
        """the branch whose condition is implied by the facts"""
        for c, q in branches:
            c2 = subst(c, m)
            if all(st.facts.get(k) == x for k, x in c2):
                return sub_parts(q, m, {})
        return None

    def el_name(self, s, i):
        """name of element i of a source (negative: from the end)"""
        while s[0] == 'slice':
            if i >= 0:
                i += s[2]
            else:
                i -= s[3]
            s = base_src(s[1])
        return ('at', s, i)

    def at_src(self, s, i):
        return subst(self.el(s), {('el', s): self.el_name(s, i)})

    def one_to_one(self, p):
        """does every element of the source give exactly one element"""
        if p[0] != 'm' or p in self.total:
            return True
        s = base_src(p[1])
        if s[0] == 'seg' and {r for c, _ in p[2] for k, r in c if k == ('rule', ('el', s))} != set(s[3]):
            return False
        if not all(len(q) == 1 and q[0][0] == 'e' for c, q in p[2]):
            return False
        if s[0] == 'seg':
            # branches must cover every element: with one branch per rule and no other condition they do
            return all(len(c) == 1 for c, _ in p[2])
        return len(p[2]) == 1 and not p[2][0][0]

    total = frozenset()
    named = frozenset()                 # values that are never printed as nothing

    def length(self, st, v):
        n, atoms = 0, []
        for p in self.parts(st, v):
            if p[0] == 'e':
                n += 1
            else:
                if self.one_to_one(p):
                    s = p[1]
                    while s[0] in ('rev', 'slice'):
                        if s[0] == 'slice':
                            n -= s[2] + s[3]
                        s = s[1]
                    q = self.ident(s)
                else:
                    q = p
                atoms.append(q)
        if not atoms:
            return ('i', n)
        if len(atoms) == 1:
            return self.nrm(st, ('n', n, ('len', atoms[0]), 'len'))
        lo = sum(self.ints(st, ('n', 0, ('len', a), 'len'))[0] for a in atoms)
        name = ('len', ('sum', tuple(sorted(atoms, key=repr))))
        if ('iv', name) not in st.facts:
            st.facts[('iv', name)] = (lo, (1 << 63) - 1, frozenset())
        return ('n', n, name, 'len')

    def at(self, st, v, i, fromend=False):
        """element i (in bounds), or None when it cannot be named"""
        ps = self.parts(st, v)
        i = self.nrm(st, i)
        if i[0] == 'n':
            # len - k
            L = self.length(st, v)
            if L[0] == 'n' and L[2] == i[2] and i[1] < L[1]:
                i, fromend = ('i', i[1] - L[1]), True
            else:
                if len(ps) == 1 and self.is_ident(ps[0]) and base_src(ps[0][1]) == ps[0][1]:
                    s = ps[0][1]
                    return subst(self.el(s), {('el', s): ('at', s, i)}) if s[0] != 'seg' else None
                return None
        if i[0] != 'i':
            return None
        k = i[1]
        if fromend:
            ps = ps[::-1]
            k = -k - 1 if k < 0 else k
        for n, p in enumerate(ps):
            if p[0] == 'e':
                if k == 0:
                    return p[1]
                k -= 1
                continue
            if not self.one_to_one(p) or len(p[2]) != 1:
                return None
            s = p[1]
            rev = fromend
            while s[0] == 'rev':
                s = s[1]
                rev = not rev
            if s[0] == 'seg':
                return None
            lo = self.ints(st, self.nrm(st, ('n', 0, ('len', self.ident(s)), 'len')))[0]
            if lo <= k and n != len(ps) - 1:
                return None
            if s[0] == 'cseg':
                return None
            return subst(p[2][0][1][0][1], {('el', s): self.el_name(s, -k - 1 if rev else k)})
        return None

    def slice_src(self, s, a, b):
        if a == 0 and b == 0:
            return s
        if s[0] == 'rev':
            return ('rev', self.slice_src(s[1], b, a))
        if s[0] == 'slice':
            return ('slice', s[1], s[2] + a, s[3] + b)
        return ('slice', s, a, b)

    def subseq(self, st, v, a, b=None, end=None):
        """v[a..] without the last b, or v[a..end] (bounds known to hold)"""
        ps = list(self.parts(st, v))
        if end is not None:
            L = self.length(st, v)
            if L[0] != 'i':
                if all(p[0] == 'e' for p in ps[:end]):
                    return ('seq', tuple(ps[a:end]))
                raise Giveup('subsequence')
            b = L[1] - end
        b = b or 0
        while a and ps and ps[0][0] == 'e':
            ps.pop(0)
            a -= 1
        while b and ps and ps[-1][0] == 'e':
            ps.pop()
            b -= 1
        if a and ps and self.one_to_one(ps[0]) and self.min_len(st, ps[0]) >= a:
            ps[0] = self.slice_part(ps[0], a, 0)
            a = 0
        if b and ps and self.one_to_one(ps[-1]) and self.min_len(st, ps[-1]) >= b:
            ps[-1] = self.slice_part(ps[-1], 0, b)
            b = 0
        if a or b:
            raise Giveup('subsequence %r %r of %r' % (a, b, v))
        return ('seq', tuple(ps))

    def min_len(self, st, p):
        s = p[1]
        while s[0] == 'rev':
            s = s[1]
        if s[0] == 'slice':
            return max(0, self.min_len(st, ('m', s[1], ())) - s[2] - s[3])
        return self.ints(st, ('n', 0, ('len', self.ident(s)), 'len'))[0]

    def slice_part(self, p, a, b):
        s = base_src(p[1])
        rev = p[1][0] == 'rev'
        n = self.slice_src(s, b, a) if rev else self.slice_src(s, a, b)
        br = subst(p[2], {('el', s): ('el', n)})
        return ('m', ('rev', n) if rev else n, br)

    def reverse(self, ps):
        out = []
        for p in reversed(ps):
            if p[0] == 'e':
                out.append(p)
            else:
                br = tuple((c, tuple(self.reverse(q))) for c, q in p[2])
                out.append((p[0], p[1][1] if p[1][0] == 'rev' else ('rev', p[1]), br))
        return tuple(out)

    # ------------------------------------------------------------ running
    def call(self, inst, args, st, span, rty):
        if self.cut is not None:
            r = self.cut(self, inst, args, st, rty)
            if r is not None:
                return r
        b = self.P.bodies[inst]
        n = sum(1 for x in st.stack if x == inst)
        if n:
            if n > 8:
                raise Giveup('recursion depth of %s' % b['name'])
            # opaque subjects: the function is left uninterpreted there
            subj = [self.D(st, a) for a in args[:1]]
            if not subj or subj[0][0] == 'o' and ('exp', subj[0][1]) not in st.facts:
                return self.lib.uninterpreted_local(self, inst, b, args, st, rty)
            if subj[0][0] == 'pair':
                raise Giveup('recursion of %s on its own token' % b['name'])
        return self.call_body(inst, args, st)

    def call_body(self, inst, args, st):
        b = self.P.bodies[inst]
        body = b['body']
        if len(st.stack) > 40:
            raise Giveup('call depth')
        self.funcs.add(b['name'])
        self.fid += 1
        fr = self.fid
        st = st.copy()
        st.stack = st.stack + (inst,)
        for i, a in enumerate(args):
            st.cells[(fr, i + 1)] = a
        res = []
        for o in self.explore(inst, fr, st, 0, None):
            if o.kind == RET:
                o.st.stack = o.st.stack[:-1]
                for l in range(len(body['locals'])):
                    o.st.cells.pop((fr, l), None)
            res.append(o)
        return res

    def explore(self, inst, fr, st, block, loop):
        body = self.P.bodies[inst]['body']
        heads = self.P.loops(inst)
        work, out = [(st, block, True)], []
        while work:
            st, b, first = work.pop()
            if loop is not None and not first:
                if b == loop[0]:
                    out.append(Out(BACK, st, b))
                    continue
                if b not in loop[1]:
                    out.append(Out(EXIT, st, b))
                    continue
            if b in heads and not (loop is not None and b == loop[0]):
                live = self.P.live_in(inst)[b]
                for k in [k for k in st.cells if k[0] == fr and k[1] not in live]:
                    del st.cells[k]
                nodes = heads[b]

                def step(s, b=b, nodes=nodes, live=live):
                    o = self.explore(inst, fr, s, b, (b, nodes))
                    for x in o:
                        if x.kind == BACK:
                            for k in [k for k in x.st.cells if k[0] == fr and k[1] not in live]:
                                del x.st.cells[k]
                    return o
                for o in self.run_loop(st, step, (self.P.bodies[inst]['name'], b)):
                    if o.kind == EXIT:
                        if loop is not None and o.val == loop[0]:
                            out.append(Out(BACK, o.st, o.val))
                        elif loop is not None and o.val not in loop[1]:
                            out.append(o)
                        else:
                            work.append((o.st, o.val, False))
                    else:
                        out.append(o)
                continue
            self.steps += 1
            if self.steps > self.MAXSTEP:
                raise Giveup('analysis budget exhausted')
            for r in self.block(inst, fr, st, body, b):
                if isinstance(r, Out):
                    out.append(r)
                else:
                    work.append((r[0], r[1], False))
        return out

    def block(self, inst, fr, st, body, b):
        states = [st.copy()]
        blk = body['blocks'][b]
        for s in blk['s']:
            if s[0] != '=':
                if s[0] == 'setdisc':
                    raise Giveup('set-discriminant')
                continue
            nxt = []
            for x in states:
                for s2, v in self.rvalue(fr, x, s[2], body, s[1]):
                    if s2 is x and len(states) == 1 and not nxt:
                        pass
                    self.assign(fr, s2, s[1], v)
                    nxt.append(s2)
            states = nxt
        out = []
        for x in states:
            out += self.term(inst, fr, x, body, blk['t'])
        return out

    def const(self, st, c, t):
        d = self.types[t]
        if 'int' in c:
            return ('i', int(c['int']))
        if 'char' in c:
            return ('ch', c['char'] if isinstance(c['char'], str) else chr(int(c['char'])))
        if 'bool' in c:
            return ('i', int(c['bool']))
        if 'str' in c:
            return S(c['str']) if d['k'] == 'str' else vref(S(c['str']))
        if 'tuple' in c:
            return ('tup', tuple(self.const(st, x['v'] if isinstance(x, dict) and 'v' in x and 't' in x else x, tt) for x, tt in zip(c['tuple'], d['el'])))
        if 'array' in c:
            el = d.get('el')
            return ('seq', tuple(('e', self.const(st, x['v'] if isinstance(x, dict) and 'v' in x and 't' in x else x, el)) for x in c['array']))
        if 'ref' in c:
            x = c['ref']
            el = d.get('el')
            if el is None:
                return ('unk', 'constant')
            et = self.types[el]
            if et['k'] in ('slice', 'array') and isinstance(x, dict) and 'array' in x:
                return vref(('seq', tuple(('e', self.const(st, y['v'] if isinstance(y, dict) and 'v' in y and 't' in y else y, et['el'])) for y in x['array'])))
            return vref(self.const(st, x, el))
        if 'adt' in c or 'variant' in c:
            vi = c.get('variant') or 0
            vd = d['variants'][vi]
            fts = self.fields(t, vi)
            fs = []
            for x, ft in zip(c.get('fields', []), fts):
                fs.append(self.const(st, x, ft) if ft is not None else ('unk', 'constant field'))
            return ('adt', t, vi, tuple(fs))
        if 'zst' in c:
            return self.zst(t)
        if 'fn' in c:
            return ('fn', t)
        if 'static' in c and d['k'] in ('ref', 'ptr'):
            return vref(('o', ('static', c['static']), d['el']))
        return ('unk', 'constant %s' % list(c))

    def zst(self, t):
        d = self.types[t]
        k = d['k']
        if k == 'fndef':
            return ('fn', t)
        if k == 'closure':
            return ('clo', d.get('inst'), ())
        if k == 'tuple':
            return ('tup', tuple(self.zst(x) for x in d['el']))
        if k == 'array':
            return ('seq', ())
        if k == 'adt' and len(d['variants']) == 1:
            fs = [f[1] for f in d['variants'][0]['fields']]
            return ('adt', t, 0, tuple(self.zst(f) if f is not None else ('unk', 'zst') for f in fs))
        return ('unk', 'zst')

    def operand(self, fr, st, o):
        if o[0] in ('copy', 'move'):
            return self.read(fr, st, o[1])
        if o[0] == 'const':
            return self.const(st, o[1]['v'], o[1]['t'])
        if o[0] == 'rtc':
            return TRUE
        raise Giveup('operand %r' % (o,))

    def place_ty(self, body, place):
        t = body['locals'][place[0]]
        for e in place[1]:
            if e == '*' or e[0] == '*':
                d = self.types[t]
                t = d.get('el')
                if t is None and d.get('k') == 'adt' and d['args']:
                    t = d['args'][0]
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'c'):
                t = self.types[t].get('el')
            if t is None:
                return None
        return t

    def rvalue(self, fr, st, rv, body, dst):
        k = rv[0]
        if k == 'use':
            return [(st, self.operand(fr, st, rv[1]))]
        if k == 'usep':
            return [(st, self.read(fr, st, rv[1]))]
        if k in ('ref', 'addr'):
            lv = self.lvalue(fr, st, rv[-1])
            if k == 'ref' and rv[1] in ('shared', 'fake'):
                return [(st, vref(lv[1] if lv[0] == 'v' else self.getp(st, st.cells.get(lv[1], ('unk', 'uninit')), lv[2])))]
            if lv[0] == 'v':
                return [(st, vref(lv[1]))]
            return [(st, ('ref', lv[1], lv[2]))]
        if k in ('bin', 'cbin'):
            a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            return self.binop(st, rv[1], a, b, rv[4], k == 'cbin')
        if k == 'un':
            a = self.operand(fr, st, rv[2])
            if rv[1] == 'Not' and self.types[rv[3]]['k'] == 'bool':
                a = self.nrm(st, a)
                if a[0] == 'i':
                    return [(st, ('i', 1 - a[1]))]
                if a[0] == 'unk':
                    return [(st, a)]
                return [(s, ('i', int(not r))) for s, r in self.truth(st, a)]
            if rv[1] == 'Neg':
                a = self.nrm(st, a)
                if a[0] == 'i':
                    return [(st, ('i', -a[1]))]
            if rv[1] == 'PtrMetadata':
                v = self.D(st, a)
                if v[0] == 'seq':
                    return [(st, self.length(st, v))]
                if v[0] == 'str':
                    return [(st, self.lib.text_len(self, st, v))]
            return [(st, ('unk', 'unop'))]
        if k == 'cast':
            v = self.operand(fr, st, rv[2])
            kind = rv[1]
            if kind == 'IntToInt':
                return self.int_cast(st, v, rv[3], rv[4])
            if 'BoxDerefTransmute' in kind:
                if v[0] == 'boxc':
                    return [(st, ('ref', v[1], ()))]
                return [(st, vref(v[1]) if v[0] == 'box' else v)]
            if kind.startswith('Transmute') and self.types[rv[4]]['k'] == 'int':
                return [(st, ('unk', 'address'))]
            return [(st, v)]
        if k == 'disc':
            v = self.read(fr, st, rv[1])
            out = []
            for s, a in self.expand(st, v):
                out.append((s, ('i', self.disc_of(a))))
            return out
        if k == 'len':
            v = self.read(fr, st, rv[1])
            return [(st, self.length(st, v))]
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            if isinstance(rv[2], int) and rv[2] <= 64:
                return [(st, ('seq', (('e', v),) * rv[2]))]
            return [(st, ('unk', 'array'))]
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in rv[2]]
            kk = rv[1][0]
            if kk == 'array':
                return [(st, ('seq', tuple(('e', x) for x in ops)))]
            if kk == 'tuple':
                return [(st, ('tup', tuple(ops)))]
            if kk == 'adt':
                if self.types[rv[1][1]]['kind'] == 'union':
                    return [(st, ops[0] if ops else ('unk', 'union'))]
                return [(st, self.mkadt(rv[1][1], rv[1][2], tuple(ops)))]
            if kk == 'closure':
                return [(st, ('clo', self.types[rv[1][1]].get('inst'), tuple(ops)))]
        return [(st, ('unk', 'rvalue %s' % k))]

    def disc_of(self, v):
        if v[0] == 'adt':
            d = self.types[v[1]]['variants'][v[2]]['disc']
            return int(d) if d is not None else v[2]
        raise Giveup('discriminant of %r' % (v,))

    def int_cast(self, st, v, fr, to):
        v = self.nrm(st, v)
        td = self.types[to]
        if v[0] == 'ch':
            v = ('i', ord(v[1]))
        if td['k'] == 'char':
            return [(st, ('ch', chr(v[1])) if v[0] == 'i' else ('unk', 'char'))]
        kind = ('i' if td['signed'] else 'u', td['bits'])
        lo, hi = self.rng(kind)
        if v[0] == 'i':
            n = (v[1] - lo) % (1 << kind[1]) + lo
            return [(st, ('i', n))]
        if v[0] == 'b':
            return [(s, ('i', int(r))) for s, r in self.truth(st, v)]
        if v[0] == 'n':
            a, b = self.ints(st, v)
            if a is not None and b is not None and a >= lo and b <= hi:
                return [(st, v)]
            return [(st, ('n', 0, ('cast', v, kind), kind))]
        if v[0] == 'adt':
            return [(st, ('i', self.disc_of(v)))]
        return [(st, ('unk', 'cast'))]

    def binop(self, st, op, a, b, t, checked):
        a, b = self.nrm(st, a), self.nrm(st, b)
        if 'unk' in (a[0], b[0]):
            u = ('unk', 'arithmetic')
            return [(st, ('tup', (u, u)) if checked else u)]
        d = self.types[t]
        if self.rel is not None and op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            r = self.rel(st, a, b)
            if r is not None:
                f = {'Lt': lambda x: x < 0, 'Le': lambda x: x <= 0, 'Gt': lambda x: x > 0, 'Ge': lambda x: x >= 0, 'Eq': lambda x: x == 0, 'Ne': lambda x: x != 0}[op]
                return [(s, ('i', int(f(x)))) for s, x in r]
        if self.rel is not None and op == 'Cmp':
            r = self.lib.compare(self, st, a, b)
            if r is not None:
                return [(s, self.lib.ordering(self, self.ordering_tid, x)) for s, x in r]
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            if a[0] in ('ch', 'cv') or b[0] in ('ch', 'cv'):
                if op in ('Eq', 'Ne'):
                    return [(s, ('i', int(r == (op == 'Eq')))) for s, r in self.char_eq(st, a, b)]
                return self.lib.char_order(self, st, op, a, b)
            if a[0] == 'b' or b[0] == 'b':
                out = []
                for s, x in self.truth(st, a):
                    for s2, y in self.truth(s, b):
                        out.append((s2, ('i', int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]))))
                return out
            return [(s, ('i', int(r))) for s, r in self.cmp(st, op, a, b)]
        if d['k'] == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'):
            out = []
            for s, x in self.truth(st, a):
                for s2, y in self.truth(s, b):
                    out.append((s2, ('i', int({'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op]))))
            return out
        base = op.replace('Unchecked', '')
        kind = ('i' if d.get('signed') else 'u', d.get('bits', 64))
        lo, hi = self.rng(kind)
        r = None
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            if base in ('Add', 'Sub', 'Mul'):
                r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[base]
            elif base in ('Div', 'Rem') and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = q if base == 'Div' else x - q * y
            elif base == 'Shl':
                r = x << (y % kind[1])
            elif base == 'Shr':
                r = x >> (y % kind[1])
            elif base in ('BitAnd', 'BitOr', 'BitXor'):
                r = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[base]
            if r is not None:
                w = (r - lo) % (1 << kind[1]) + lo
                if checked:
                    return [(st, ('tup', (('i', w), ('i', int(w != r)))))]
                return [(st, ('i', w))]
        if base in ('Add', 'Sub'):
            if base == 'Add' and a[0] == 'i':
                a, b = b, a
            if a[0] == 'n' and b[0] == 'i':
                v = ('n', a[1] + (b[1] if base == 'Add' else -b[1]), a[2], a[3])
            elif a[0] == 'n' and b[0] == 'n' and base == 'Sub' and a[2] == b[2]:
                v = ('i', a[1] - b[1])
            else:
                return self.unknown_arith(st, base, a, b, kind, checked)
            if not checked:
                return [(st, v)]
            out = []
            if v[0] == 'i':
                return [(st, ('tup', (v, ('i', int(not (lo <= v[1] <= hi))))))]
            for s, under in self.cmp(st, 'Lt', v, ('i', lo)):
                if under:
                    out.append((s, ('tup', (v, TRUE))))
                    continue
                for s2, over in self.cmp(s, 'Gt', v, ('i', hi)):
                    out.append((s2, ('tup', (v, ('i', int(over))))))
            return out
        return self.unknown_arith(st, base, a, b, kind, checked)

    def unknown_arith(self, st, base, a, b, kind, checked):
        v = ('n', 0, (base, a, b), kind)
        fits = False
        if base in ('Add', 'Sub', 'Mul') and a[0] in 'in' and b[0] in 'in':
            (p, q), (r, s) = self.ints(st, a), self.ints(st, b)
            if None not in (p, q, r, s):
                xs = {'Add': (p + r, q + s), 'Sub': (p - s, q - r), 'Mul': (p * r, p * s, q * r, q * s)}[base]
                lo, hi = self.rng(kind)
                if lo <= min(xs) and max(xs) <= hi:
                    fits = True
                    if ('iv', v[2]) not in st.facts:
                        st = st.copy()
                        st.facts[('iv', v[2])] = (min(xs), max(xs), frozenset())
        if fits:
            return [(st, ('tup', (v, FALSE)) if checked else v)]
        if checked:
            return [(s, ('tup', (v, ('i', int(r2))))) for s, r2 in self.truth(st, ('b', ('overflow', base, a, b)))]
        return [(st, v)]

    def term(self, inst, fr, st, body, t):
        k = t[0]
        if k == 'goto':
            return [(st, t[1])]
        if k == 'return':
            return [Out(RET, st, st.cells.get((fr, 0), UNIT))]
        if k == 'drop':
            if any(f[0] == 'held' for f in st.facts):
                st = self.lib.release(self, st, self.operand(fr, st, ('copy', t[1])))
            return [(st, t[2])]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'switch':
            v = self.nrm(st, self.operand(fr, st, t[1]))
            out = []
            if v[0] == 'b':
                for s, r in self.truth(st, v):
                    for val, tgt in t[2]:
                        if int(val) == int(r):
                            out.append((s, tgt))
                            break
                    else:
                        out.append((s, t[3]))
                return out
            if v[0] == 'i':
                for val, tgt in t[2]:
                    if int(val) == v[1] or (v[1] < 0 and (int(val) - v[1]) % (1 << 8) == 0 and int(val) >= 128 and (int(val) - v[1]) in (1 << 8, 1 << 16, 1 << 32, 1 << 64, 1 << 128)):
                        return [(st, tgt)]
                return [(st, t[3])]
            if v[0] in ('ch', 'cv'):
                rest = [st]
                for val, tgt in t[2]:
                    nr = []
                    for s0 in rest:
                        for s, r in self.char_eq(s0, v, ('ch', chr(int(val)))):
                            if r:
                                out.append((s, tgt))
                            else:
                                nr.append(s)
                    rest = nr
                for s in rest:
                    out.append((s, t[3]))
                return out
            if v[0] == 'n':
                rest = [st]
                for val, tgt in t[2]:
                    nr = []
                    for s0 in rest:
                        for s, r in self.cmp(s0, 'Eq', v, ('i', int(val))):
                            if r:
                                out.append((s, tgt))
                            else:
                                nr.append(s)
                    rest = nr
                for s in rest:
                    out.append((s, t[3]))
                return out
            raise Giveup('branch on %r' % (v,))
        if k == 'assert':
            if 'PointerDereference' in str(t[3]) or 'Misaligned' in str(t[3]) or 'Null' in str(t[3]):
                return [(st, t[4])]
            out = []
            for s, r in self.truth(st, self.operand(fr, st, t[1])):
                if r == bool(t[2]):
                    out.append((s, t[4]))
                else:
                    out.append(Out(PANIC, s, 'assertion: %s' % (t[3][0] if t[3][0] != 'other' else t[3][1]), t[5]))
            return out
        if k == 'call':
            F = self.types[t[5]]
            args = [self.operand(fr, st, a) for a in t[2]]
            rty = self.place_ty(body, t[3])
            if F['k'] == 'fndef':
                outs = self.call_fn(F, args, rty, st, t[6])
            else:
                outs = self.call_value(self.operand(fr, st, t[1]), args, st, t[6], rty)
            res = []
            for o in outs:
                if o.kind == RET:
                    if t[4] is None:
                        continue
                    if o.st is st:
                        o.st = st.copy()
                    self.assign(fr, o.st, t[3], o.val)
                    res.append((o.st, t[4]))
                else:
                    if o.span is None:
                        o.span = t[6]
                    res.append(o)
            return res
        raise Giveup('terminator %s' % k)

    # ------------------------------------------------------------ calls
    def call_value(self, f, args, st, span, rty=None):
        ref = None
        while f[0] in ('vref', 'ref', 'box', 'boxc'):
            ref = f
            f = self.deref(st, f)
        if f[0] == 'fn':
            return self.call_fn(self.types[f[1]], args, rty, st, span)
        if f[0] == 'clo':
            if f[1] not in self.P.bodies:
                raise Giveup('closure without body')
            b = self.P.bodies[f[1]]['body']
            et = self.types[b['locals'][1]]
            env = f
            if et['k'] == 'ref':
                if et['mut']:
                    if ref is None or ref[0] != 'ref':
                        st = st.copy()
                        ref = ('ref', self.heap(st, f), ())
                    env = ref
                else:
                    env = vref(f)
            if b.get('spread') is not None:
                args = [('tup', tuple(args))]
            return self.call_body(f[1], [env] + list(args), st)
        raise Giveup('call of %r' % (f,))

    def call_fn(self, F, args, rty, st, span):
        if rty is None:
            rty = F.get('ret')
        inst = F.get('inst')
        p = F['path']
        if p in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call') and len(args) == 2:
            a = args[1]
            return self.call_value(args[0], list(a[1]) if a[0] == 'tup' else [a], st, span, rty)
        if self.cut is not None and inst in self.P.bodies:
            r = self.cut(self, inst, args, st, rty)
            if r is not None:
                return r
        r = self.lib.model(self, F, args, rty, st, span)
        if r is not None:
            return r
        if inst in self.P.bodies:
            return self.call(inst, args, st, span, rty)
        c = self.ctor(F, rty, args)
        if c is not None:
            return [Out(RET, st, c)]
        return self.lib.external(self, F, args, rty, st, span)

    def ctor(self, F, rty, args):
        if rty is None or self.types[rty]['k'] != 'adt':
            return None
        d = self.types[rty]
        last = F['path'].split('::')[-1]
        if '{constructor' in F['path']:
            last = F['path'].split('::')[-2]
        for i, v in enumerate(d['variants']):
            if v['name'] == last and d['adt'].split('::')[-1] in F['path']:
                return self.mkadt(rty, i, tuple(args))
            if v['name'] == last and last in ('Some', 'Ok', 'Err'):
                return ('adt', rty, i, tuple(args))
        return None

    # ------------------------------------------------------------ loops
    def run_loop(self, st, step, label, depth=0):
        """all ways out of a loop entered in state st"""
        out, work, n = [], [st], 0
        while work:
            s = work.pop()
            n += 1
            if n > 200:
                raise Giveup('loop %s does not end' % (label,))
            s = s.copy()
            outer, loop = s.pops, s.loop
            s.pops, s.loop = (), frozenset(s.cells)
            res = step(s)
            srcs = {x for o in res if o.kind == BACK for x in o.st.pops}
            if srcs:
                for o in self.summarise(s, step, label, srcs):
                    o.st.pops, o.st.loop = outer, loop
                    if o.kind == BACK:
                        work.append(o.st)
                    else:
                        out.append(o)
                continue
            for o in res:
                o.st.pops, o.st.loop = outer, loop
                if o.kind == BACK:
                    if o.st.cells == s.cells and o.st.facts == s.facts:
                        raise Giveup('loop %s makes no progress' % (label,))
                    work.append(o.st)
                else:
                    out.append(o)
        return out

    def summarise(self, s, step, label, srcs):
        """the loop advances over an unbounded source: general state before an
        iteration, then the image of the source under the body"""
        if len(srcs) != 1:
            raise Giveup('loop %s advances over several sources at once' % (label,))
        src = next(iter(srcs))
        self.lid += 1
        lid = ('loop', len(s.active), src)
        el = ('el', base_src(src))
        if el in s.active:
            raise Giveup('source %r is traversed inside its own traversal' % (src,))
        changed, assume, counted = {}, {}, {}
        for _ in range(12):
            G = s.copy()
            G.active = s.active | {el}
            G.pops = ()
            for cell, (ph, path) in changed.items():
                G.cells[cell] = ph
            for nm, r in assume.items():
                G.facts[('iv', nm)] = r
            res = step(G)
            new = dict(changed)
            for o in res:
                if o.kind != BACK or not o.st.pops:
                    continue
                for cell in set(G.cells) | set(o.st.cells):
                    a, b = G.cells.get(cell), o.st.cells.get(cell)
                    if a == b or cell not in s.cells:
                        continue
                    if a is not None and a[0] == 'it' and b is not None and b[0] == 'it':
                        raise Giveup('loop %s: an iterator changes between iterations' % (label,))
                    ph = self.placeholder(s, s.cells[cell], b, ('acc', lid, cell))
                    if cell in new:
                        new[cell] = (self.join_ph(new[cell][0], ph, s.cells[cell]), ())
                    else:
                        new[cell] = (ph, ())
            # bodies: per path through one iteration
            paths = []
            for o in res:
                if o.kind == BACK and o.st.pops:
                    cond = frozenset((k, v) for k, v in o.st.facts.items() if G.facts.get(k) != v)
                    paths.append((cond, {c: o.st.cells.get(c) for c in new}))
            if new == changed:
                # counters of elements stay below 2^31 (the text has fewer characters)
                counted = {ph[2]: (init, news) for ph, init, news in self.leaves(s, changed, paths) if self.counter(ph, init, news)}
                more = {nm: (init[1], (1 << 31) - 2, frozenset()) for nm, (init, news) in counted.items()}
                if more == assume:
                    break
                assume = more
            changed = new
        else:
            raise Giveup('loop %s: no invariant found' % (label,))
        fin, spl, pfin, pspl = {}, {}, {}, {}
        self.fold_cells(s, src, lid, changed, paths, fin, spl)
        self.fold_cells(s, ('prefix', src), lid, changed, paths, pfin, pspl, True)
        out = []
        for o in res:
            if o.kind == BACK and o.st.pops:
                continue
            m, sp = (pfin, pspl) if o.st.pops else (fin, spl)
            st = o.st
            st.active = s.active
            for c in list(st.cells):
                st.cells[c] = self.simp(subst(st.cells[c], m, sp))
            nf = {}
            for k, v in st.facts.items():
                k2 = subst(k, m, sp)
                if self.mentions_acc(k2, lid):
                    continue
                nf[k2] = v
            st.facts = nf
            if isinstance(o.val, tuple):
                o.val = self.simp(subst(o.val, m, sp))
            out.append(o)
        return out

    def mentions_acc(self, t, lid):
        if isinstance(t, (tuple, frozenset)):
            if isinstance(t, tuple) and len(t) >= 2 and t[0] == 'acc' and t[1] == lid:
                return True
            return any(self.mentions_acc(x, lid) for x in t)
        return False

    def simp(self, v):
        return v

    def placeholder(self, st, old, new, name):
        """general value of a changing cell"""
        k = old[0]
        if new is None:
            raise Giveup('cell is dropped inside a loop')
        if k == new[0]:
            if k == 'tup' and len(old[1]) == len(new[1]):
                return ('tup', tuple(a if a == b else self.placeholder(st, a, b, name + (i,)) for i, (a, b) in enumerate(zip(old[1], new[1]))))
            if k == 'adt' and old[1] == new[1] and old[2] == new[2]:
                return ('adt', old[1], old[2], tuple(a if a == b else self.placeholder(st, a, b, name + (i,)) for i, (a, b) in enumerate(zip(old[3], new[3]))))
            if k == 'box':
                return ('box', self.placeholder(st, old[1], new[1], name))
        if k == 'clo' and new[0] == 'clo':
            return ('clo', old[1], tuple(a if a == b else self.placeholder(st, a, b, name + (i,)) for i, (a, b) in enumerate(zip(old[2], new[2]))))
        if k == 'vref' and new[0] == 'vref':
            return vref(self.placeholder(st, old[1], new[1], name))
        if k == 'seq' and new[0] == 'seq':
            return ('seq', (self.ident(('v', name, self.seq_elt(old, new))),))
        if k == 'str' and new[0] == 'str':
            return ('str', (('t', name),))
        if k == 'map':
            return ('map', (name, None, None), ())
        if k in ('i', 'n') and new[0] in ('i', 'n'):
            kind = old[3] if k == 'n' else new[3] if new[0] == 'n' else ('u', 64)
            return ('n', 0, name, kind)
        if k in ('i', 'b') and new[0] in ('i', 'b'):
            return ('b', name)
        if k in ('o', 'adt') and new[0] in ('o', 'adt'):
            t = old[2] if k == 'o' else old[1]
            t2 = new[2] if new[0] == 'o' else new[1]
            return ('o', name, t if t is not None else t2)
        if k == 'unk' or new[0] == 'unk':
            return ('unk', 'changed in a loop')
        if k in ('ch', 'cv'):
            return ('cv', name)
        raise Giveup('a loop changes %r to %r' % (old, new))

    def seq_elt(self, old, new):
        for v in (old, new):
            for p in v[1]:
                if p[0] == 'e' and p[1][0] in ('adt', 'o'):
                    return p[1][1] if p[1][0] == 'adt' else p[1][2]
                if p[0] == 'm' and p[1][0] == 'v':
                    return p[1][2]
        return None

    def join_ph(self, a, b, init):
        """the general value of a cell that one path changes to a, another to b"""
        if a == b or b == init:
            return a
        if a == init:
            return b
        k = a[0]
        if k == b[0] == init[0] and k in ('tup', 'adt', 'clo'):
            i = {'tup': 1, 'adt': 3, 'clo': 2}[k]
            if a[:i] == b[:i] == init[:i] and len(a[i]) == len(b[i]) == len(init[i]):
                return a[:i] + (tuple(self.join_ph(x, y, z) for x, y, z in zip(a[i], b[i], init[i])),)
        return b if k in ('tup', 'adt', 'clo') else a

    def counter(self, ph, init, news):
        """does the cell go up by one on some iterations, starting from a small constant"""
        return (ph[0] == 'n' and ph[1] == 0 and init[0] == 'i' and 0 <= init[1] < 1 << 20 and any(n != ph for _, n in news)
                and all(n in (ph, ('n', 1) + ph[2:]) for _, n in news) and self.width(ph[3]) >= 31)

    def width(self, kind):
        return kind[1] - (kind[0] == 'i') if isinstance(kind, tuple) else 64

    def leaves(self, s, changed, paths):
        """[(placeholder, initial value, [(condition, new value)])] of the changed cells"""
        leaves = []                     # (placeholder leaf, init, [(cond, new)])

        def walk(ph, init, news):
            k = ph[0]
            if k == 'tup' and init[0] == 'tup':
                for i in range(len(ph[1])):
                    walk(ph[1][i], init[1][i], [(c, n[1][i] if n[0] == 'tup' else None) for c, n in news])
            elif k == 'adt' and init[0] == 'adt':
                for i in range(len(ph[3])):
                    walk(ph[3][i], init[3][i], [(c, n[3][i] if n[0] == 'adt' else None) for c, n in news])
            elif k == 'clo' and init[0] == 'clo':
                for i in range(len(ph[2])):
                    walk(ph[2][i], init[2][i], [(c, n[2][i]) for c, n in news])
            elif k in ('box', 'vref') and init[0] == k:
                walk(ph[1], init[1], [(c, n[1]) for c, n in news])
            elif ph != init or any(n != ph for _, n in news):
                leaves.append((ph, init, news))
        for cell, (ph, _) in changed.items():
            walk(ph, s.cells[cell], [(c, n[cell]) for c, n in paths])
        return leaves

    def fold_cells(self, s, src, lid, changed, paths, fin, spl, prefix=False):
        """final values of the changed cells: images for appends, folds otherwise"""
        leaves = self.leaves(s, changed, paths)
        rsrc = src if not prefix else src
        todo = []
        for ph, init, news in leaves:
            if ph[0] == 'unk':
                continue
            if ph[0] in ('seq', 'str'):
                app = []
                for c, n in news:
                    if n is None or n[0] != ph[0] or n[1][:1] != ph[1] or self.mentions_acc(n[1][1:], lid):
                        app = None
                        break
                    app.append((c, n[1][1:]))
                if app is not None and not any(self.mentions_acc(c, lid) for c, _ in app):
                    tag = 'm' if ph[0] == 'seq' else 'tm'
                    part = self.image(tag, rsrc, app)
                    spl[ph[1][0]] = tuple(init[1]) + ((part,) if part else ())
                    fin[ph[1][0]] = part if part else ('gone',)
                    continue
                pre = [(c, n[1][:-1][::-1]) for c, n in news if n is not None and n[0] == ph[0] and n[1][-1:] == ph[1]]
                if not prefix and ph[0] == 'seq' and len(pre) == len(news) and all(p[0] == 'e' for _, q in pre for p in q) \
                        and not any(self.mentions_acc(x, lid) for x in pre):
                    # new elements in front: the image, backwards
                    part = self.image('m', rsrc, pre)
                    r = self.lib.keep_total(self, (part,), self.reverse((part,))) if part else ()
                    spl[ph[1][0]] = r + tuple(init[1])
                    fin[ph[1][0]] = r[0] if part else ('gone',)
                    continue
            if ph[0] == 'map' and all(n is not None and n[0] == 'map' and n[1] == ph[1] and not self.mentions_acc(n[2], lid) for c, n in news) \
                    and not any(self.mentions_acc(c, lid) for c, _ in news):
                part = self.image('m', rsrc, [(c, n[2]) for c, n in news])
                fin[ph] = ('map', init[1], init[2] + ((part,) if part else ()))
                continue
            if not prefix and self.counter(ph, init, news) and not any(self.mentions_acc(c, lid) for c, _ in news):
                part = self.image('m', rsrc, [(c, (('e', ('i', 1)),) if n != ph else ()) for c, n in news])
                k = self.length(s, ('seq', (part,) if part else ()))
                fin[ph] = ('i', init[1] + k[1]) if k[0] == 'i' else ('n', init[1] + k[1], k[2], ph[3])
                fin[('count', ph[2])] = (init[1] + k[1], None if k[0] == 'i' else k[2])
                continue
            todo.append((ph, init, news))
        # general folds; those that depend on each other are folded together
        names = {ph: i for i, (ph, _, _) in enumerate(todo)}
        for ph, init, news in todo:
            deps, w = [ph], [ph]
            while w:
                x = w.pop()
                for c, n in next(z for z in todo if z[0] == x)[2]:
                    for y in names:
                        if y not in deps and (contains(n, y) or contains(c, y) or self.dep(c, y) or self.dep(n, y)):
                            deps.append(y)
                            w.append(y)
            ren = {self.phname(y): ('a', i) for i, y in enumerate(deps)}
            tm = []
            for z in deps:
                zz = next(q for q in todo if q[0] == z)
                br = tuple(sorted(((subst(c, ren), subst(n, ren)) for c, n in zz[2] if n != z), key=repr))
                tm.append(br)
            inits = tuple(next(q for q in todo if q[0] == z)[1] for z in deps)
            nm = ('fold', rsrc, inits, tuple(tm))
            fin[ph] = self.rename_ph(ph, nm)
            fin[self.phname(ph)] = nm

    def phname(self, ph):
        """the ('acc', ..) name inside a leaf placeholder"""
        k = ph[0]
        if k in ('o', 'b', 'cv'):
            return ph[1]
        if k == 'n':
            return ph[2]
        if k == 'str':
            return ph[1][0][1]
        if k == 'seq':
            return ph[1][0][1][1]
        if k == 'map':
            return ph[1][0]
        raise Giveup('placeholder %r' % (ph,))

    def dep(self, t, ph):
        try:
            return contains(t, self.phname(ph))
        except Giveup:
            return False

    def rename_ph(self, ph, nm):
        return subst(ph, {self.phname(ph): nm})

    def image(self, tag, src, branches):
        """canonical ('m'|'tm', src, branches) (None: nothing is produced)"""
        by = {}
        b = base_src(src[1] if src[0] == 'prefix' else src)
        sk = ('S', ('el', b))
        for c, q in branches:
            by.setdefault(tuple(q), []).append(c)
        out = []
        for q, cs in by.items():
            if not q:
                continue
            # conditions that only differ in the set of characters are merged
            grp = {}
            for c in cs:
                d = dict(c)
                x = d.pop(sk, None)
                grp.setdefault(frozenset(d.items()), []).append(x)
            for rest, xs in grp.items():
                if b[0] == 'cseg':
                    u = set()
                    for x in xs:
                        u |= set(x) if x is not None else set(b[3])
                    if frozenset(u) == frozenset(b[3]):
                        out.append((rest, q))
                    else:
                        out.append((rest | {(sk, frozenset(u))}, q))
                else:
                    out.append((rest, q))
        # complementary conditions with the same result
        out = self.merge(out)
        if not out:
            return None
        p = (tag, src, tuple(sorted(out, key=repr)))
        if tag == 'm' and len(branches) and all(len(q) == 1 and q[0][0] == 'e' for _, q in branches):
            self.total = self.total | {p}
        return p

    def merge(self, out):
        out = list(out)
        go = True
        while go:
            go = False
            for i in range(len(out)):
                for j in range(i + 1, len(out)):
                    (c, q), (d, r) = out[i], out[j]
                    if q == r:
                        x, y = c - d, d - c
                        if len(x) == 1 and len(y) == 1:
                            (k1, v1), (k2, v2) = next(iter(x)), next(iter(y))
                            if k1 == k2 and k1[0] == 'b' and v1 != v2:
                                out[i] = (c & d, q)
                                del out[j]
                                go = True
                                break
                if go:
                    break
        return out
