"""Value domain of the abstract interpreter: integer polynomials over interned
atoms (inputs, gcd/Bezout numbers, quotients, folds, Fibonacci numbers, ...),
and path facts (equalities, disequalities, linear inequalities) with a small
polyhedral/ideal entailment test.  No external solver is involved."""
from math import gcd as igcd, isqrt

# ----------------------------------------------------------------- atoms
ATOMS = []          # id -> (kind, args)
_AIDX = {}
_DEPS = []          # id -> frozenset of atom ids reachable through visible args
HIDDEN = {'fdiv', 'tdiv', 'sk', 'isqrt', 'fn'}
NEXT_SK = [0]


def atom(kind, *args):
    key = (kind,) + args
    i = _AIDX.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append((kind, args))
        _AIDX[key] = i
        d = {i}
        if kind not in HIDDEN:
            for a in args:
                if isinstance(a, P):
                    d |= a.deps()
        _DEPS.append(frozenset(d))
    return i


class P:
    __slots__ = ('t', '_h', '_d')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._d = None

    # construction
    @staticmethod
    def c(n):
        return P({(): n}) if n else P({})

    @staticmethod
    def a(i):
        return P({((i, 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def deps(self):
        if self._d is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= _DEPS[a]
            self._d = frozenset(s)
        return self._d

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0) if self.is_const() else None

    def cpart(self):
        return self.t.get((), 0)

    def __add__(self, o):
        o = lift(o)
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return P(t)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        return P(t)

    __rmul__ = __mul__

    def __pow__(self, k):
        r = P.c(1)
        for _ in range(k):
            r = r * self
        return r

    def __repr__(self):
        return show(self)

    def content(self):
        g = 0
        for m, c in self.t.items():
            if m:
                g = igcd(g, c)
        return g

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)


def lift(x):
    return x if isinstance(x, P) else P.c(x)


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def mdiv(m, d):
    """m / d or None"""
    if not d:
        return m
    x = dict(m)
    for a, e in d:
        n = x.get(a, 0) - e
        if n < 0:
            return None
        if n:
            x[a] = n
        else:
            x.pop(a, None)
    return tuple(sorted(x.items()))


def show_atom(i):
    k, a = ATOMS[i]
    if k == 'v':
        return str(a[0])
    if k == 'el':
        return '%s[%s]' % (a[0], a[1])
    return '%s(%s)' % (k, ', '.join(map(str, a)))


def show(p):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (-sum(e for _, e in x[0]), x[0])):
        f = '*'.join(show_atom(a) + ('^%d' % e if e > 1 else '') for a, e in m)
        if not f:
            s = str(c)
        elif c == 1:
            s = f
        elif c == -1:
            s = '-' + f
        else:
            s = '%d*%s' % (c, f)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


# ------------------------------------------------------- types of integers
# 'B' BigInt, 'U' BigUint, ('i', bits), ('u', bits)
def ty_range(ty):
    if ty == 'B':
        return None, None
    if ty == 'U':
        return 0, None
    s, b = ty
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s == 'i' else (0, (1 << b) - 1)


def var(name, ty='B'):
    return P.a(atom('v', name, ty))


def sk(ty, *ctx):
    """fresh integer, functional in the enclosing loop counters `ctx`"""
    NEXT_SK[0] += 1
    return P.a(atom('sk', NEXT_SK[0], ty, *ctx))


# ------------------------------------------------------- smart constructors
def canon_sign(p):
    """p or -p, choosing a canonical representative"""
    if not p.t:
        return p
    m = max(p.t)
    return -p if p.t[m] < 0 else p


def lead_neg(p):
    return bool(p.t) and p.t[max(p.t)] < 0


def mk_abs(p):
    c = p.const()
    if c is not None:
        return P.c(abs(c))
    return P.a(atom('abs', canon_sign(p)))


def single_atom(p):
    """atom id when p is exactly one atom with coefficient +-1"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            return m[0][0]
    return None


def drop_multiples(p, m):
    """p with every monomial containing the atom m removed (p mod m)"""
    return P({k: c for k, c in p.t.items() if not any(a == m for a, _ in k)})


def mk_gcd(a, b):
    for x, y in ((a, b), (b, a)):
        s = single_atom(y)
        if s is not None:
            r = drop_multiples(x, s)
            if r != x:
                return mk_gcd(r, y)
    if not a.t:
        return mk_abs(b)
    if not b.t:
        return mk_abs(a)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return P.c(igcd(ca, cb))
    if (ca is not None and abs(ca) == 1) or (cb is not None and abs(cb) == 1):
        return P.c(1)
    a, b = canon_sign(a), canon_sign(b)
    if a == b:
        return mk_abs(a)
    k = sorted([a, b], key=lambda p: sorted(p.t.items()))
    return P.a(atom('gcd', k[0], k[1]))


def mk_bez(a, b, which):
    return P.a(atom('bez' + which, a, b))


def tdivc(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def mk_fdiv(a, b):
    ca, cb = a.const(), b.const()
    if cb is not None and cb != 0:
        if ca is not None:
            return P.c(ca // cb)
        if cb == 1:
            return a
        if cb == -1:
            return -a
        # split off the part divisible by the constant divisor
        q = {m: c // cb for m, c in a.t.items() if c % cb == 0}
        r = {m: c for m, c in a.t.items() if c % cb != 0}
        if q:
            if not r:
                return P(q)
            return P(q) + mk_fdiv(P(r), b)
        if cb > 0:
            # reduce coefficients: fdiv(c*x, b) = (c//b)*x + fdiv((c%b)*x, b)
            q = {m: c // cb for m, c in a.t.items() if c // cb}
            if q:
                return P(q) + mk_fdiv(P({m: c % cb for m, c in a.t.items()}), b)
    s = single_atom(b)
    if s is not None:
        q = {}
        r = {}
        for m, c in a.t.items():
            d = mdiv(m, ((s, 1),))
            if d is None:
                r[m] = c
            else:
                q[d] = c * b.t[((s, 1),)]
        if not r:
            return P(q)       # exact multiple (b != 0 is an obligation elsewhere)
    return P.a(atom('fdiv', a, b))


def mk_tdiv(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        return P.c(tdivc(ca, cb))
    if cb == 1:
        return a
    if cb == -1:
        return -a
    if cb is not None and cb != 0 and all(c % cb == 0 for c in a.t.values()):
        return P({m: c // cb for m, c in a.t.items()})
    s = single_atom(b)
    if s is not None and a.t and all(any(x == s for x, _ in m) for m in a.t):
        return mk_fdiv(a, b)
    return P.a(atom('tdiv', a, b))


def mk_pow(a, n):
    cn, ca = n.const(), a.const()
    if cn is not None and 0 <= cn <= 64 and (ca is not None or cn <= 4):
        return P.c(ca ** cn) if ca is not None else a ** cn
    if ca is not None:
        if cn is not None and cn >= 0:
            return P.c(ca ** cn) if cn < 100000 else P.a(atom('pow', a, n))
        if ca == 1:
            return P.c(1)
    return P.a(atom('pow', a, n))


def mk_rprod(lo, hi):
    """product of the integers lo..=hi (1 when empty)"""
    cl, ch = lo.const(), hi.const()
    if cl is not None and ch is not None and ch - cl < 400:
        r = 1
        for i in range(cl, ch + 1):
            r *= i
        return P.c(r)
    d = (hi - lo).const()
    if d is not None and d < 12:
        r = P.c(1)
        for i in range(0, d + 1):
            r = r * (lo + i)
        return r
    if cl == 2:
        lo = P.c(1)
    return P.a(atom('rprod', lo, hi))


_FIBC = [0, 1]


def fibc(n):
    if n >= 0:
        while len(_FIBC) <= n:
            _FIBC.append(_FIBC[-1] + _FIBC[-2])
        return _FIBC[n]
    m = -n
    return fibc(m) if m % 2 else -fibc(m)


def mk_fib(p):
    c = p.const()
    if c is not None and abs(c) < 5000:
        return P.c(fibc(c))
    return P.a(atom('fib', p))


def mk_el(seq, idx, ty='B'):
    return P.a(atom('el', seq, idx, ty))


def mk_prod(seq, lo, hi):
    """product of seq[lo..hi)"""
    d = (hi - lo).const()
    if d is not None and 0 <= d < 6:
        r = P.c(1)
        for i in range(d):
            r = r * mk_el(seq, lo + i)
        return r
    return P.a(atom('prod', seq, lo, hi))


def mk_horner(v, m, lo, hi):
    """sum_{j=lo}^{hi-1} v[j] * prod_{l=lo}^{j-1} m[l]"""
    d = (hi - lo).const()
    if d is not None and 0 <= d < 6:
        r = P.c(0)
        for i in reversed(range(d)):
            r = mk_el(v, lo + i) + mk_el(m, lo + i) * r
        return r
    return P.a(atom('horner', v, m, lo, hi))


def rebuild(kind, args):
    f = {'gcd': mk_gcd, 'abs': mk_abs, 'fdiv': mk_fdiv, 'tdiv': mk_tdiv, 'pow': mk_pow,
         'rprod': mk_rprod, 'fib': mk_fib, 'el': mk_el, 'prod': mk_prod, 'horner': mk_horner}.get(kind)
    if f:
        return f(*args)
    if kind in ('bezx', 'bezy'):
        return mk_bez(args[0], args[1], kind[3])
    return P.a(atom(kind, *args))


def _alldeps(i, cache={}):
    d = cache.get(i)
    if d is None:
        k, args = ATOMS[i]
        d = {i}
        for a in args:
            if isinstance(a, P):
                for j in a.atoms():
                    d |= _alldeps(j)
        d = frozenset(d)
        cache[i] = d
    return d


def subst(p, mp, deep=False):
    """replace atoms by polynomials; `deep` also inside hidden atoms"""
    if not mp:
        return p
    keys = mp.keys()
    if not deep and keys.isdisjoint(p.deps()):
        return p
    cache = {}

    def sa(i):
        r = cache.get(i)
        if r is None:
            if i in mp:
                r = mp[i]
            elif keys.isdisjoint(_alldeps(i) if deep else _DEPS[i]):
                r = P.a(i)
            else:
                k, args = ATOMS[i]
                r = rebuild(k, [sp(a) if isinstance(a, P) else a for a in args])
            cache[i] = r
        return r

    def sp(q):
        out = P({})
        acc = {}
        for m, c in q.t.items():
            if all(keys.isdisjoint(_alldeps(a) if deep else _DEPS[a]) for a, _ in m):
                n = acc.get(m, 0) + c
                if n:
                    acc[m] = n
                else:
                    acc.pop(m, None)
                continue
            r = P.c(c)
            for a, e in m:
                r = r * (sa(a) ** e)
            out = out + r
        return out + P(acc)
    return sp(p)


# ---------------------------------------------------------------- alignment
def split_c(p):
    """(p - const, const)"""
    c = p.cpart()
    return (p - c, c)


def align(ps):
    """rewrite families of shifted atoms (fib(b+c), rprod(lo,b+c), pow(a,b+c),
    prod/horner(...,b+c)) in the polynomials `ps` over a common base"""
    for _ in range(8):
        groups = {}
        for p in ps:
            for a in p.atoms():
                k, g = ATOMS[a]
                if k == 'fib':
                    b, c = split_c(g[0])
                    groups.setdefault(('fib', b), {})[a] = c
                elif k == 'rprod':
                    b, c = split_c(g[1])
                    groups.setdefault(('rprod', g[0], b), {})[a] = c
                    # also groups by lower end
                    b2, c2 = split_c(g[0])
                    if b2.t:
                        groups.setdefault(('rprodlo', b2, g[1]), {})[a] = c2
                elif k == 'pow':
                    b, c = split_c(g[1])
                    groups.setdefault(('pow', g[0], b), {})[a] = c
                elif k == 'prod':
                    b, c = split_c(g[2])
                    groups.setdefault(('prod', g[0], g[1], b), {})[a] = c
                    b2, c2 = split_c(g[1])
                    if b2.t:
                        groups.setdefault(('prodlo', g[0], b2, g[2]), {})[a] = c2
                elif k == 'horner':
                    b, c = split_c(g[3])
                    groups.setdefault(('horner', g[0], g[1], g[2], b), {})[a] = c
                    b2, c2 = split_c(g[2])
                    if b2.t:
                        groups.setdefault(('hornerlo', g[0], g[1], b2, g[3]), {})[a] = c2
        mp = {}
        # doubling for fibonacci: base with even coefficients
        for key, mem in groups.items():
            if key[0] == 'fib':
                b = key[1]
                if b.t and all(c % 2 == 0 for c in b.t.values()):
                    h = P({m: c // 2 for m, c in b.t.items()})
                    f0, f1 = mk_fib(h), mk_fib(h + 1)
                    e0, e1 = f0 * (2 * f1 - f0), f0 * f0 + f1 * f1
                    for a, c in mem.items():
                        mp[a] = e0 * fibc(c - 1) + e1 * fibc(c)
        if not mp:
            for key, mem in groups.items():
                if key[0] == 'fib':
                    c0 = min(mem.values())
                    if len(mem) > 1 and max(mem.values()) - c0 >= 2:
                        b = key[1]
                        f0, f1 = mk_fib(b + c0), mk_fib(b + c0 + 1)
                        for a, c in mem.items():
                            if c - c0 >= 2:
                                mp[a] = f0 * fibc(c - c0 - 1) + f1 * fibc(c - c0)
                elif len(mem) > 1:
                    if key[0] in ('rprod', 'pow', 'prod', 'horner'):
                        c0 = min(mem.values())
                        for a, c in mem.items():
                            if c == c0:
                                continue
                            if key[0] == 'rprod':
                                r = mk_rprod(key[1], key[2] + c0)
                                for i in range(c0 + 1, c + 1):
                                    r = r * (key[2] + i)
                            elif key[0] == 'pow':
                                r = mk_pow(key[1], key[2] + c0) * key[1] ** (c - c0)
                            elif key[0] == 'prod':
                                r = mk_prod(key[1], key[2], key[3] + c0)
                                for i in range(c0, c):
                                    r = r * mk_el(key[1], key[3] + i)
                            else:
                                r = mk_horner(key[1], key[2], key[3], key[4] + c0)
                                for i in range(c0, c):
                                    r = r + mk_el(key[1], key[4] + i) * mk_prod(key[2], key[3], key[4] + i)
                            mp[a] = r
                    elif not mp:
                        c0 = max(mem.values())
                        for a, c in mem.items():
                            if c == c0:
                                continue
                            if key[0] == 'rprodlo':
                                r = mk_rprod(key[1] + c0, key[2])
                                for i in range(c, c0):
                                    r = r * (key[1] + i)
                            elif key[0] == 'prodlo':
                                r = mk_prod(key[1], key[2] + c0, key[3])
                                for i in range(c, c0):
                                    r = r * mk_el(key[1], key[2] + i)
                            else:
                                r = mk_horner(key[1], key[2], key[3] + c0, key[4])
                                for i in reversed(range(c, c0)):
                                    r = mk_el(key[1], key[3] + i) + mk_el(key[2], key[3] + i) * r
                            mp[a] = r
        if not mp:
            return ps
        ps = [subst(p, mp) for p in ps]
    return ps


# ---------------------------------------------------------------- Groebner
def mkey(m):
    return (sum(e for _, e in m), tuple(sorted(m, reverse=True)))


def lead(p):
    m = max(p.t, key=mkey)
    return m, p.t[m]


def reduce_by(p, gens):
    """remainder of p modulo generators with leading coefficient +-1"""
    p = dict(p.t)
    rem = {}
    steps = 0
    while p:
        steps += 1
        if steps > 4000:
            break
        m = max(p, key=mkey)
        c = p[m]
        for (lm, lc, g) in gens:
            d = mdiv(m, lm)
            if d is not None:
                f = c * lc          # lc = +-1
                for gm, gc in g.t.items():
                    mm = mmul(gm, d)
                    n = p.get(mm, 0) - f * gc
                    if n:
                        p[mm] = n
                    else:
                        p.pop(mm, None)
                break
        else:
            rem[m] = p.pop(m)
    rem.update(p)
    return P(rem)


def groebner(gens, limit=60):
    G = []
    for g in gens:
        if not g.t:
            continue
        r = reduce_by(g, G)
        if r.t:
            lm, lc = lead(r)
            if abs(lc) == 1:
                G.append((lm, lc, r))
    pairs = [(i, j) for i in range(len(G)) for j in range(i)]
    n = 0
    while pairs and n < limit:
        n += 1
        i, j = pairs.pop(0)
        (m1, c1, g1), (m2, c2, g2) = G[i], G[j]
        d1, d2 = dict(m1), dict(m2)
        if not set(d1) & set(d2):
            continue
        l = dict(d1)
        for a, e in d2.items():
            l[a] = max(l.get(a, 0), e)
        lm = tuple(sorted(l.items()))
        if sum(l.values()) > 9:
            continue
        s = P({mdiv(lm, m1): c1}) * g1 - P({mdiv(lm, m2): c2}) * g2
        r = reduce_by(s, G)
        if r.t:
            m, c = lead(r)
            if abs(c) == 1:
                G.append((m, c, r))
                pairs += [(len(G) - 1, k) for k in range(len(G) - 1)]
                if len(G) > 40:
                    break
    return G


# ---------------------------------------------------------------- facts
class Infeasible(Exception):
    pass


SIMPLIFYING = set()


class PC:
    """path condition: solved equalities (sub), remaining equalities (eqs),
    p >= 0 (ges), p != 0 (nes), universally quantified facts (alls)"""
    __slots__ = ('sub', 'eqs', 'ges', 'nes', 'alls', 'log', 'trace')

    def __init__(self, o=None):
        if o is None:
            self.sub, self.eqs, self.ges, self.nes, self.alls, self.log = {}, [], [], [], [], ()
            self.trace = ()
        else:
            self.sub, self.eqs, self.ges = dict(o.sub), list(o.eqs), list(o.ges)
            self.nes, self.alls, self.log, self.trace = list(o.nes), list(o.alls), o.log, o.trace

    def copy(self):
        return PC(self)

    def norm(self, p):
        for _ in range(20):
            q = subst(p, self.sub)
            if q == p:
                return q
            p = q
        return p

    # -- lemma inequalities for an atom
    def atom_ges(self, i):
        k, a = ATOMS[i]
        x = P.a(i)
        if k == 'v' or k == 'sk':
            lo, hi = ty_range(a[1])
            out = []
            if lo is not None:
                out.append(x - lo)
            if hi is not None:
                out.append(hi - x)
            return out
        if k == 'el':
            lo, hi = ty_range(a[2])
            out = []
            if lo is not None:
                out.append(x - lo)
            if hi is not None:
                out.append(hi - x)
            return out
        if k in ('gcd', 'abs'):
            return [x]
        if k == 'isqrt':
            return [x, a[0] - x]
        if k == 'fdiv':
            c = a[1].const()
            if c is not None and c > 0:
                r = a[0] - c * x
                return [r, c - 1 - r]
            return []
        if k == 'tdiv':
            c = a[1].const()
            if c:
                r = a[0] - c * x
                return [r + abs(c) - 1, abs(c) - 1 - r]
            return []
        return []

    def lemmas(self, polys):
        """inequalities implied by the structure of the atoms that occur"""
        out = []
        seen = set()
        todo = set()
        for p in polys:
            todo |= p.atoms()
        n = 0
        while todo and n < 60:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            n += 1
            for g in self.atom_ges(i):
                g = self.norm(g)
                out.append(g)
                todo |= g.atoms() - seen
            k, a = ATOMS[i]
            if k == 'fib':
                # F is nonnegative and nondecreasing on the naturals
                if any(True for _ in [0]) and self.ge_simple(a[0]):
                    out.append(P.a(i))
                    nx = align([mk_fib(a[0] + 1) - P.a(i)])[0]
                    out.append(nx)
                    todo |= nx.atoms() - seen
                if self.ge_simple(a[0] - 1):
                    out.append(P.a(i) - 1)
            elif k == 'rprod':
                if self.ge_simple(a[0] - 1):
                    out.append(P.a(i) - 1)
                elif self.ge_simple(a[0]):
                    out.append(P.a(i))
            elif k == 'pow':
                if self.ge_simple(a[0] - 1):
                    out.append(P.a(i) - 1)
            elif k == 'fdiv':
                if a[1].const() is None and self.ge_simple(a[0]) and self.ge_simple(a[1] - 1):
                    out.append(P.a(i))
                    out.append(a[0] - P.a(i))
                    todo |= a[0].atoms() - seen
                    out.append(a[0] - a[1] * P.a(i))
                    out.append(a[1] - 1 - a[0] + a[1] * P.a(i))
                    todo |= a[1].atoms() - seen
            elif k == 'tdiv':
                if self.ge_simple(a[0]) and self.ge_simple(a[1] - 1):
                    out.append(P.a(i))
                    out.append(a[0] - P.a(i))
                    out.append(a[0] - a[1] * P.a(i))
                    out.append(a[1] - 1 - a[0] + a[1] * P.a(i))
                    todo |= (a[0].atoms() | a[1].atoms()) - seen
                elif a[1].const():
                    r = a[0] - a[1] * P.a(i)
                    if self.ge_simple(a[0]):
                        out.append(r)
                    elif self.ge_simple(-a[0]):
                        out.append(-r)
            elif k == 'gcd':
                for y in a:
                    y = self.norm(y)
                    if any(q == y or q == -y for q in self.nes) or self.ge_simple(y - 1) or self.ge_simple(-y - 1):
                        out.append(P.a(i) - 1)
                        break
            elif k == 'isqrt':
                if self.ge_simple(a[0]):
                    x = P.a(i)
                    out += [x, a[0] - x * x, x * x + 2 * x - a[0]]
                    if self.ge_simple(a[0] - 1):
                        out.append(x - 1)
        return out

    def ge_simple(self, p):
        """p >= 0 from bounds and the recorded inequalities only (no atom lemmas
        beyond type ranges): used inside lemma generation"""
        p = self.norm(p)
        c = p.const()
        if c is not None:
            return c >= 0
        cons = list(self.ges)
        for i in set().union(*[q.atoms() for q in cons + [p]]):
            cons += [self.norm(g) for g in self.atom_ges(i)]
        return infeasible(cons + [-p - 1])

    # -- queries
    def ge(self, p):
        p = self.norm(p)
        c = p.const()
        if c is not None:
            return c >= 0
        p = align([p])[0]
        cons = [align([self.norm(g)])[0] for g in self.ges]
        cons += self.lemmas(cons + [p])
        return infeasible(cons + [-p - 1])

    def gens(self, polys):
        """equalities usable for ideal reduction, incl. Bezout relations"""
        g = [self.norm(e) for e in self.eqs]
        for x, r in self.sub.items():
            if ATOMS[x][0] == 'abs':
                y = self.norm(ATOMS[x][1][0])
                g.append(y * y - r * r)
        seen = set()
        todo = set()
        for p in list(polys) + g:
            todo |= p.atoms()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            k, a = ATOMS[i]
            if k == 'abs':
                g.append(self.norm(a[0] * a[0]) - P.a(i) * P.a(i))
            if k in ('bezx', 'bezy'):
                r = a[0] * mk_bez(a[0], a[1], 'x') + a[1] * mk_bez(a[0], a[1], 'y') - mk_gcd(a[0], a[1])
                r = self.norm(r)
                g.append(r)
                todo |= r.atoms() - seen
        return g

    def eq(self, p, extra=()):
        """p = 0 entailed (`extra`: polynomials regarded as 0, i.e. congruence)"""
        p = align([self.simp(self.norm(p))])[0]
        if not p.t:
            return True
        if p.is_const() and not extra:
            return False
        gens = self.gens([p] + list(extra))
        allp = align([p] + gens + [self.norm(e) for e in extra])
        p, gens = allp[0], allp[1:]
        if not p.t:
            return True
        if gens:
            if not reduce_by(p, groebner(gens)).t:
                return True
        # squeeze
        if not extra and self.ge(p) and self.ge(-p):
            return True
        return self.eq_small(p) if not extra else False

    def eq_small(self, p):
        """p = 0 in each of the few cases of a number that selects a function
        value (the n of fib(n), n!, x^n) and is bounded on both sides"""
        for a in p.atoms():
            k, args = ATOMS[a]
            if k not in ('fib', 'rprod', 'pow') or not isinstance(args[-1], P):
                continue
            ats = args[-1].atoms()
            if len(ats) != 1:
                continue
            v, = ats
            lo = hi = None
            for g in self.ges:
                if set(g.t) <= {((v, 1),), ()} and ((v, 1),) in g.t:
                    c, d = g.t[((v, 1),)], g.t.get((), 0)
                    if c > 0:
                        b = -(d // c)
                        lo = b if lo is None else max(lo, b)
                    else:
                        b = d // -c
                        hi = b if hi is None else min(hi, b)
            if lo is None and hi is not None and self.ge(P.a(v)):
                lo = 0
            if lo is None or hi is None or hi - lo > 3:
                continue
            for x in range(lo, hi + 1):
                try:
                    q = self.copy()
                    q.add_eq(P.a(v) - x)
                except Infeasible:
                    continue
                if not q.eq(p):
                    break
            else:
                return True
        return False

    def ne(self, p):
        p = self.norm(p)
        c = p.const()
        if c is not None:
            return c != 0
        if any(p == self.norm(q) or p == -self.norm(q) for q in self.nes):
            return True
        if self.ge(p - 1) or self.ge(-p - 1):
            return True
        # parity / content argument
        g = p.content()
        if g > 1 and p.cpart() % g:
            return True
        # q != 0 recorded and p == q modulo the equalities
        for q in self.nes:
            if self.eq(p - q) or self.eq(p + q):
                return True
        return False

    # -- updates (raise Infeasible)
    def div_twin(self, p):
        """for a zero test of a truncated remainder, the floored remainder"""
        for i in p.atoms():
            k, a = ATOMS[i]
            if k == 'tdiv':
                r = a[0] - a[1] * P.a(i)
                if p == r or p == -r or self.norm(r) in (self.norm(p), -self.norm(p)):
                    f = mk_fdiv(self.norm(a[0]), self.norm(a[1]))
                    return self.norm(a[0]) - self.norm(a[1]) * f, f - P.a(i)
        return None, None

    def add_eq0(self, p):
        self.trace = self.trace + (('eq', p),)
        q, d = self.div_twin(p)
        if q is not None:
            self.add_eq(d)
            self.add_eq(q)
        self.add_eq(p)

    def add_ne0(self, p):
        self.trace = self.trace + (('ne', p),)
        q, d = self.div_twin(p)
        if q is not None:
            self.add_ne(q)
        self.add_ne(p)

    def simp(self, p):
        """evaluate atoms whose arguments the path facts decide"""
        mp = {}
        for i in p.atoms():
            k, a = ATOMS[i]
            if k == 'pow':
                b, n = self.norm(a[0]), self.norm(a[1])
                if not b.t and self.ge(n - 1):
                    mp[i] = P.c(0)
                elif not n.t or b == P.c(1):
                    mp[i] = P.c(1)
                elif (b, n) != a:
                    mp[i] = mk_pow(b, n)
            elif k == 'rprod':
                if self.ge(a[0] - a[1] - 1):
                    mp[i] = P.c(1)
            elif k == 'prod':
                if self.ge(a[1] - a[2]):
                    mp[i] = P.c(1)
            elif k == 'horner':
                if self.ge(a[2] - a[3]):
                    mp[i] = P.c(0)
            elif k in ('fdiv', 'tdiv'):
                if i in SIMPLIFYING:            # defined (by an equation) through itself
                    continue
                SIMPLIFYING.add(i)
                try:
                    b, n = self.simp(self.norm(a[0])), self.norm(a[1])
                finally:
                    SIMPLIFYING.discard(i)
                if (b, n) != a:
                    r = (mk_fdiv if k == 'fdiv' else mk_tdiv)(b, n)
                    if single_atom(r) != i:
                        mp[i] = r
            elif k == 'abs':
                b = self.norm(a[0])
                if self.ge(b):
                    mp[i] = b
                elif self.ge(-b):
                    mp[i] = -b
        if mp:
            p = subst(p, mp)
        return self.merge(p)

    def merge(self, p):
        """join adjacent range products: P(a..b) * P(b+1..c) = P(a..c)"""
        while True:
            for m, c in p.t.items():
                rs = [x for x, e in m if ATOMS[x][0] in ('rprod', 'prod')]
                if len(rs) < 2:
                    continue
                for x in rs:
                    for y in rs:
                        if x == y or ATOMS[x][0] != ATOMS[y][0]:
                            continue
                        ax, ay = ATOMS[x][1], ATOMS[y][1]
                        if ATOMS[x][0] == 'rprod':
                            if self.norm(ax[1] + 1 - ay[0]).t or not (self.ge(ax[1] + 1 - ax[0]) and self.ge(ay[1] - ax[1])):
                                continue
                            n = mk_rprod(ax[0], ay[1])
                        else:
                            if ax[0] != ay[0] or self.norm(ax[2] - ay[1]).t or not (self.ge(ax[2] - ax[1]) and self.ge(ay[2] - ay[1])):
                                continue
                            n = mk_prod(ax[0], ax[1], ay[2])
                        rest = mdiv(mdiv(m, ((x, 1),)), ((y, 1),))
                        p = p - P({m: c}) + P({rest: c}) * n
                        break
                    else:
                        continue
                    break
                else:
                    continue
                break
            else:
                return p

    def add_eq(self, p, why=None):
        p = align([self.norm(p)])[0]
        if why:
            self.log = self.log + (why,)
        self._add_eq(p)

    def _add_eq(self, p):
        if not p.t:
            return
        if p.is_const():
            raise Infeasible()
        g = p.content()
        if g > 1:
            if p.cpart() % g:
                raise Infeasible()
            p = P({m: c // g for m, c in p.t.items()})
        # solve for an atom that occurs linearly with coefficient +-1
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                a = m[0][0]
                rest = P({mm: cc for mm, cc in p.t.items() if mm != m})
                if a in rest.deps():
                    continue
                k = ATOMS[a][0]
                # prefer plain inputs/counters, then defined atoms
                w = {'v': 0, 'sk': 1, 'el': 2, 'gcd': 2}.get(k, 4)
                if rest.is_const():
                    w -= 10
                # eliminate an input in favour of its quotient, not vice versa
                if k in ('fdiv', 'tdiv'):
                    w += 3
                cand = (w, a)
                if best is None or cand < best[0]:
                    best = (cand, a, rest if c == -1 else -rest)
        if best is None:
            self.eqs.append(p)
            self.recheck()
            return
        _, a, r = best
        mp = {a: r}
        self.sub = {x: subst(q, mp) for x, q in self.sub.items()}
        self.sub[a] = r
        old = self.eqs
        self.eqs = []
        for l in self.atom_ges(a):
            self.ges.append(l)
        if ATOMS[a][0] == 'gcd' and not r.t:
            # gcd(x, y) = 0 forces x = y = 0
            for y in ATOMS[a][1]:
                self.add_eq(y)
        for e in old:
            self._add_eq(align([self.norm(e)])[0])
        # congruence closure: solved compound terms whose arguments changed
        for x in list(self.sub):
            k, ar = ATOMS[x]
            if k in ('gcd', 'el', 'fdiv', 'tdiv', 'isqrt', 'pow', 'rprod', 'fib', 'abs') and x in self.sub:
                na = [self.norm(y) if isinstance(y, P) else y for y in ar]
                if any(isinstance(y, P) and y != z for y, z in zip(ar, na)):
                    d = self.norm(rebuild(k, na) - self.sub[x])
                    if d.t and len(self.log) < 400:
                        self.log = self.log + ('cc',)
                        self._add_eq(align([d])[0])
        self.recheck()

    def recheck(self):
        ges, self.ges = self.ges, []
        seen = set()
        for g in ges:
            g = self.norm(g)
            c = g.const()
            if c is not None:
                if c < 0:
                    raise Infeasible()
                continue
            g = tighten(g)
            if g not in seen:
                seen.add(g)
                self.ges.append(g)
        nes, self.nes = self.nes, []
        for q in nes:
            q = self.norm(q)
            c = q.const()
            if c is not None:
                if c == 0:
                    raise Infeasible()
                continue
            k = q.content()
            if k > 1:
                if q.cpart() % k:
                    continue
                q = P({m: v // k for m, v in q.t.items()})
            if q not in self.nes and -q not in self.nes:
                self.nes.append(q)
        if self.nes and self.ges:
            for i, g in enumerate(self.ges):
                while any(q == g or q == -g for q in self.nes):
                    g = g - 1
                self.ges[i] = g
        if self.ges:
            cons = [align([g])[0] for g in self.ges]
            cons += self.lemmas(cons)
            if infeasible(cons):
                raise Infeasible()
        for q in self.nes:
            if not align([q])[0].t:
                raise Infeasible()

    def add_ge(self, p, why=None):
        self.trace = self.trace + (('ge', p),)
        p = self.norm(p)
        c = p.const()
        if c is not None:
            if c < 0:
                raise Infeasible()
            return
        p = tighten(p)
        if self.ge(-p - 1):
            raise Infeasible()
        if self.ge(-p):
            self.add_eq(p)
            return
        while any(self.norm(q) in (p, -p) for q in self.nes):
            p = p - 1
            if self.ge(-p - 1):
                raise Infeasible()
            if self.ge(-p):
                self.add_eq(p)
                return
        self.ges.append(p)

    def add_ne(self, p, why=None):
        if why:
            self.log = self.log + (why,)
        p = align([self.norm(p)])[0]
        c = p.const()
        if c is not None:
            if c == 0:
                raise Infeasible()
            return
        if self.eq(p):
            raise Infeasible()
        self.nes.append(p)
        if self.ge(p):
            self.add_ge(p - 1)
        elif self.ge(-p):
            self.add_ge(-p - 1)

    def add_fact(self, f):
        getattr(self, 'add_' + f[0] + ('0' if f[0] != 'ge' else ''))(f[1])


def tighten(p):
    """divide by the content, rounding the constant down (integers)"""
    g = p.content()
    if g > 1:
        p = P({m: v // g for m, v in p.t.items() if m}) + (p.cpart() // g)
    return p


FM_CACHE = {}


def infeasible(cons):
    """Fourier-Motzkin on the linearisation of cons (each >= 0); True when
    provably empty over the integers"""
    key = (frozenset(cons), cons[-1] if cons else None)
    r = FM_CACHE.get(key)
    if r is None:
        if len(FM_CACHE) > 200000:
            FM_CACHE.clear()
        r = FM_CACHE[key] = infeasible_(cons)
    return r


def fmrow(rows, t):
    """add the row t (monomial -> coefficient, () -> constant) keeping only the
    strongest of the rows with the same linear part; True when contradictory"""
    c = t.pop((), 0)
    if not t:
        return c < 0
    g = 0
    for v in t.values():
        g = igcd(g, v)
        if g == 1:
            break
    if g > 1:
        t = {m: v // g for m, v in t.items()}
        c //= g
    lin = frozenset(t.items())
    o = rows.get(lin)
    if o is None or c < o[1]:
        rows[lin] = (t, c)
    return False


def infeasible_(cons):
    rows = {}
    for p in cons:
        if fmrow(rows, dict(p.t)):
            return True
    # restrict to the component of the last constraint
    if cons:
        want = {m for m in cons[-1].t if m}
        if want:
            comp, rest, ch = {}, rows, True
            while ch:
                ch = False
                nr = {}
                for lin, r in rest.items():
                    if not want.isdisjoint(r[0]):
                        comp[lin] = r
                        want |= r[0].keys()
                        ch = True
                    else:
                        nr[lin] = r
                rest = nr
            rows = comp
    while rows:
        cnt = {}
        for t, c in rows.values():
            for m, v in t.items():
                e = cnt.setdefault(m, [0, 0])
                e[v < 0] += 1
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], mkey(x)))
        pos, neg, new = [], [], {}
        for lin, r in rows.items():
            v = r[0].get(m, 0)
            if v > 0:
                pos.append(r)
            elif v < 0:
                neg.append(r)
            else:
                new[lin] = r
        if len(pos) * len(neg) > 600:
            return False
        for a, ac in pos:
            for b, bc in neg:
                ca, cb = a[m], -b[m]
                g = igcd(ca, cb)
                fa, fb = cb // g, ca // g
                x = {k: v * fa for k, v in a.items()}
                for k, v in b.items():
                    w = x.get(k, 0) + v * fb
                    if w:
                        x[k] = w
                    else:
                        x.pop(k, None)
                x[()] = ac * fa + bc * fb
                if fmrow(new, x):
                    return True
        rows = new
        if len(rows) > 400:
            return False
    return False
