"""Specifications of sm-algorithm's functions, decided on the outcomes the
abstract interpreter computes.  Every judgement is fail-closed: an outcome
that cannot be shown to meet its specification is reported."""
import interp
from interp import *
from terms import *
from math import isqrt
from vals import *

MAXU32 = (1 << 32) - 1
IMAX = (1 << 63) - 1

PRIME_COUNT = [0, 4, 25, 168, 1229, 9592, 78498, 664579, 5761455, 50847534, 455052511, 4118054813, 37607912018,
               346065536839, 3204941750802, 29844570422669, 279238341033925, 2623557157654233, 24739954287740860,
               234057667276344607, 2220819602560918840, 21127269486018731928, 201467286689315906290,
               1925320391606803968923, 18435599767349200867866, 176846309399143769411680, 1699246750872437141327603,
               16352460426841680446427399]
PRIME_SUM = [0, 17, 1060, 76127, 5736396, 454396537, 37550402023, 3203324994356, 279209790387276, 24739512092254535,
             2220822432581729238, 201467077743744681014, 18435588552550705911377, 1699246443377779418889494,
             157589260710736940541561021, 14692398516908006398225702366, 1376110854313351899159632866552,
             129408626276669278966252031311350, 12212914292949226570880576733896687,
             1156251260549368082781614413945980126, 109778913483063648128485839045703833541,
             10449550362130704786220283253063405651965, 996973504763259668279213971353794878368213,
             95320530117168404458544684912403185555509650, 9131187511156941634384410084928380134453142199,
             876268031750623105684911815303505535704119354853]


class Rep:
    """obligations and violations of one check"""

    def __init__(self):
        self.obl = []           # (text, ok)
        self.viol = []          # (key, text)
        self.funcs = set()
        self.sites = 0
        self.paths = 0
        self.info = {}

    def need(self, okay, key, text):
        self.obl.append((text, bool(okay)))
        if not okay:
            self.viol.append((key, text))
        return okay

    def bad(self, key, text):
        self.need(False, key, text)

    def good(self, text, okay=True):
        self.obl.append((text, bool(okay)))


def facts_str(pc, n=8):
    out = []
    for k, p in dict.fromkeys(pc.trace):
        q = pc.norm(p)
        if q.const() is None:
            out.append('%s %s' % (show(q), {'ge': '>= 0', 'eq': '= 0', 'ne': '!= 0'}[k]))
    out = list(dict.fromkeys(out))
    for a, r in pc.sub.items():
        if ATOMS[a][0] == 'v':
            out.insert(0, '%s = %s' % (show_atom(a), show(r)))
    return '; '.join(out[:n]) + ('; ...' if len(out) > n else '') if out else 'no condition'


class Run:
    """outcomes of one function on arbitrary arguments"""

    def __init__(self, prog, rep, fname, opaque=None, pre=None, lazy=False):
        self.rep, self.fname, self.prog = rep, fname, prog
        self.outs, self.args, self.ok = [], [], False
        c = prog.find(fname)
        if len(c) != 1:
            rep.bad('%s:missing' % fname, 'anchor: function `%s` found %d times in %s (expected once)' % (fname, len(c), prog.d['crate']))
            return
        inst = c[0]
        self.inst = inst['id']
        self.path = inst['name']
        self.I = I = Interp(prog)
        I.lazy = lazy
        if opaque:
            for nm, f in opaque.items():
                for i in prog.find(nm):
                    I.summaries[i['id']] = Opaque(f)
        b = inst['body']
        names = {p[1][0]: p[0] for p in b['names'] if not p[1][1]}
        st = State()
        self.params = []
        for i in range(b['argc']):
            v = I.fresh(b['locals'][i + 1], 'abcdefgh'[i] + '_' + names.get(i + 1, 'arg'), st)
            self.args.append(v)
            self.params.append(I.D(st, v))
        if pre:
            for f in pre(self):
                st.pc = assume(st.pc, f)[0]
        self.st0 = st
        try:
            self.outs = I.call(self.inst, self.args, st)
        except Giveup as e:
            rep.bad('%s:undecided' % fname, 'function %s: the analysis could not summarise it (%s)' % (self.path, e))
            return
        except Infeasible:
            self.outs = []
        self.ok = True
        for i in I.analysed:
            rep.funcs.add(prog.bodies[i]['name'])
        rep.paths += len(self.outs)
        rep.info.setdefault('paths', {})[fname] = len(self.outs)
        if I.notes:
            rep.info.setdefault('unmodelled', []).extend(I.notes[:5])
        if not self.outs:
            rep.bad('%s:no-outcome' % fname, 'function %s: no path reaches a return' % self.path)

    def p(self, i):
        return self.params[i].p

    def loc(self, o):
        return '%s%s' % (self.path, ' at %s' % o.span if o.span else '')

    def bad(self, o, kind, msg, pc=None):
        self.rep.bad('%s:%s' % (self.fname, kind), '%s, path [%s]: %s%s' % (
            self.loc(o), facts_str(pc or o.st.pc), msg,
            '' if not self.I.notes else ' (unmodelled: %s)' % '; '.join(self.I.notes[:2])))

    def good(self, o, msg):
        self.rep.need(True, '', '%s: %s' % (self.fname, msg))

    def rets(self):
        """return outcomes; reachable panics are reported"""
        for o in self.outs:
            if o.kind == 'ret':
                yield o, self.I.D(o.st, o.val)
            elif o.kind == 'panic':
                self.bad(o, 'panic:%s' % pclass(o.val), 'reaches a panic (%s) instead of returning' % (o.val,))
            else:
                self.bad(o, 'other', 'unexpected outcome %r' % (o,))

    def i(self, o, v):
        v = self.I.D(o.st, v)
        return v.p if isinstance(v, Int) else None


def pclass(v):
    s = str(v)
    for k in ('overflow', 'underflow', 'division by zero', 'remainder', 'unwrap of None', 'unwrap', 'index', 'unimplemented', 'assert', 'negation'):
        if k in s:
            return k.replace(' ', '-')
    return 'panic'


class Opaque:
    """a callee replaced by its specification"""

    def __init__(self, f):
        self.f = f

    def apply(self, I, args, st, span):
        return self.f(I, args, st, span)


def split(pc, *fs):
    """disjoint refinement of pc by every truth assignment of fs; yields (pc, bools)"""
    cur = [(pc, ())]
    for f in fs:
        nxt = []
        for q, bs in cur:
            nxt += [(r, bs + (True,)) for r in assume(q, f)]
            nxt += [(r, bs + (False,)) for r in assume(q, f_not(f))]
        cur = nxt
    return cur


def is_adt(v, vn):
    return isinstance(v, Adt) and v.vn == vn


def errname(run, o, v):
    if is_adt(v, 'Err'):
        e = run.I.D(o.st, v.fs[0])
        if isinstance(e, Adt):
            return e.vn
    return None


def cases(run, o, v, judge, what):
    """judge(pc, v) -> None when fine, message otherwise; over a partition"""
    msgs = []
    for pc, tag in judge(o.st.pc):
        if tag is not None:
            msgs.append((tag, pc))
    if msgs:
        run.bad(o, what, msgs[0][0], msgs[0][1])
    else:
        run.good(o, what)


# ------------------------------------------------------------------- A01
def A01(prog, rep):
    r = Run(prog, rep, 'power_iu')
    if not r.ok:
        return
    a, b = r.p(0), r.p(1)
    for o, v in r.rets():
        e = errname(r, o, v)
        x = r.i(o, v.fs[0]) if is_adt(v, 'Ok') else None

        def judge(pc):
            for q, (az, bz) in split(pc, f_eq(a), f_eq(b)):
                if az and bz:
                    yield q, None if e == 'Indeterminate' else '0^0 must be the error Indeterminate, got %r' % (v,)
                elif e == 'OverFlow':
                    okay = q.ge(b - MAXU32 - 1) and not az and q.ne(a - 1)
                    yield q, None if okay else 'overflow reported although the power is representable (exponent within 32 bits or base 0/1)'
                elif x is None:
                    yield q, 'expected a^b, got %r' % (v,)
                elif bz:
                    yield q, None if q.eq(x - 1) else 'a^0 = 1 expected, got %s' % show(q.norm(x))
                elif az:
                    yield q, None if q.eq(x) else '0^b = 0 expected, got %s' % show(q.norm(x))
                else:
                    yield q, None if q.eq(x - mk_pow(a, b)) else 'a^b expected, got %s' % show(q.norm(x))
        cases(r, o, v, judge, 'result-is-power')


# ------------------------------------------------------------------- A02
def A02(prog, rep):
    r = Run(prog, rep, 'extended_gcd2')
    if not r.ok:
        return
    a, b = r.p(0), r.p(1)
    g = mk_gcd(a, b)
    for o, v in r.rets():
        pc = o.st.pc
        gg = r.i(o, v.fs[0]) if isinstance(v, Tup) and len(v.fs) == 2 else None
        s = r.I.D(o.st, v.fs[1]) if gg is not None else None
        n = r.I.seq_len(s) if s is not None else None
        if gg is None or n is None or not pc.eq(n - 2):
            r.bad(o, 'shape', 'expected (gcd, two coefficients), got %r' % (v,))
            continue
        x = r.i(o, r.I.seq_at(o.st, s, P.c(0)))
        y = r.i(o, r.I.seq_at(o.st, s, P.c(1)))
        if not pc.eq(gg - g):
            r.bad(o, 'gcd', 'first component is %s, not gcd(a, b) >= 0' % show(pc.norm(gg)))
        else:
            r.good(o, 'first component is the non-negative gcd')
        if x is None or y is None or not pc.eq(a * x + b * y - g):
            r.bad(o, 'bezout', 'coefficients (%s, %s) do not satisfy a*x + b*y = gcd(a, b)' % (x, y))
        else:
            r.good(o, 'a*x + b*y = gcd(a, b)')


# ------------------------------------------------------------------- A03
def A03(prog, rep):
    r = Run(prog, rep, 'is_coprime')
    if not r.ok:
        return
    g = mk_gcd(r.p(0), r.p(1))
    for o, v in r.rets():
        if not isinstance(v, Bool):
            r.bad(o, 'shape', 'result %r is not understood' % (v,))
            continue
        t = all(q.eq(g - 1) for q in assume(o.st.pc, v.f))
        f = all(q.ne(g - 1) for q in assume(o.st.pc, f_not(v.f)))
        if v.f[0] == 'top' or not t:
            r.bad(o, 'true-only-if', 'may answer true although gcd(x, y) is not 1')
        else:
            r.good(o, 'true => gcd = 1')
        if v.f[0] == 'top' or not f:
            r.bad(o, 'false-only-if', 'may answer false although gcd(x, y) = 1')
        else:
            r.good(o, 'false => gcd != 1')


# ------------------------------------------------------------------- A04
def opt(r, o, v):
    """('none'|'some'|None, payload poly)"""
    if is_adt(v, 'None'):
        return 'none', None
    if is_adt(v, 'Some'):
        return 'some', r.i(o, v.fs[0])
    return None, None


def A04(prog, rep):
    r = Run(prog, rep, 'modulo_inverse')
    if not r.ok:
        return
    a, m = r.p(0), r.p(1)
    g = mk_gcd(a, m)
    for o, v in r.rets():
        k, x = opt(r, o, v)

        def judge(pc):
            for q, _ in split(pc, f_eq(a), f_eq(m)):
                if k == 'some' and x is not None:
                    yield q, None if q.eq(a * x - 1, extra=[q.norm(m)]) else 'a*x = 1 (mod m) does not follow for x = %s' % show(q.norm(x))
                elif k == 'none':
                    yield q, None if q.ne(g - 1) else 'no inverse returned although gcd(a, m) may be 1'
                else:
                    yield q, 'result %r is not understood' % (v,)
        cases(r, o, v, judge, 'inverse')


# ------------------------------------------------------------------- A05
def nondivisible(pc, a, g):
    """facts imply that g does not divide a"""
    if pc.eq(g):
        return pc.ne(a)
    for mk in (mk_tdiv, mk_fdiv):
        if pc.ne(a - g * mk(a, g)):
            return True
    return False


def A05(prog, rep):
    r = Run(prog, rep, 'modulo_division')
    if not r.ok:
        return
    a, b, m = r.p(0), r.p(1), r.p(2)
    g = mk_gcd(b, m)
    for o, v in r.rets():
        k, x = opt(r, o, v)

        def judge(pc):
            for q, _ in split(pc, f_eq(g)):
                if k == 'some' and x is not None:
                    yield q, None if q.eq(b * x - a, extra=[q.norm(m)]) else 'b*x = a (mod m) does not follow for x = %s' % show(q.norm(x))
                elif k == 'none':
                    yield q, None if nondivisible(q, a, g) else 'no solution returned although gcd(b, m) may divide a'
                else:
                    yield q, 'result %r is not understood' % (v,)
        cases(r, o, v, judge, 'division')


# ------------------------------------------------------------------- A06
def split_at(pc, p, base, i):
    """rewrite prod/horner atoms over `base` in p around index i;
    yields (pc, rewritten p) over a partition"""
    todo = [(pc, p, frozenset())]
    out = []
    while todo:
        q, e, done = todo.pop()
        e = q.simp(q.norm(e))
        hit = None
        for a in sorted(e.atoms()):
            k, ar = ATOMS[a]
            if a in done:
                continue
            if k == 'prod' and ar[0] == base:
                hit = (a, ar[1], ar[2])
            elif k == 'horner' and ar[1] == base:
                hit = (a, ar[2], ar[3])
            if hit:
                break
        if not hit:
            out.append((q, e))
            continue
        a, lo, hi = hit
        k, ar = ATOMS[a]
        for q2 in assume(q, f_and(f_ge(i - lo), f_ge(hi - 1 - i))):
            mi = mk_el(base, q2.norm(i))
            l2, h2, i2 = q2.norm(lo), q2.norm(hi), q2.norm(i)
            if k == 'prod':
                rep = mk_prod(base, l2, i2) * mi * mk_prod(base, i2 + 1, h2)
            else:
                rep = mk_horner(ar[0], base, l2, i2) + mk_prod(base, l2, i2) * (
                    mk_el(ar[0], i2) + mi * mk_horner(ar[0], base, i2 + 1, h2))
            new = set()
            for x in rep.atoms():
                if ATOMS[x][0] in ('prod', 'horner'):
                    new.add(x)
            todo.append((q2, subst(e, {a: rep}), done | new | {a}))
        for f in (f_ge(lo - 1 - i), f_and(f_ge(i - lo), f_ge(i - hi))):
            for q2 in assume(q, f):
                todo.append((q2, e, done | {a}))
    return out


def apply_alls(pc, base_idx):
    """instantiate every universally quantified fact at the given (base, index)"""
    for base, idx in base_idx:
        for (katom, lo, hi, facts, seqs) in list(pc.alls):
            for c in seqs.get(base, ()):
                k = idx - c
                if not (pc.ge(k - lo) and pc.ge(hi - 1 - k)):
                    continue
                for f in facts:
                    g = subst(f[1], {katom: k}, deep=True)
                    if f[0] == 'eq':
                        pc.add_eq(g)
                    elif f[0] == 'ne':
                        pc.add_ne(g)
                    else:
                        pc.add_ge(g)


def created_seqs(p):
    out = set()
    for a in p.deps() | p.atoms():
        k, ar = ATOMS[a]
        if k == 'el':
            out.add(ar[0])
        elif k == 'horner':
            out.add(ar[0])
            out.add(ar[1])
        elif k == 'prod':
            out.add(ar[0])
    return out


def A06(prog, rep):
    r = Run(prog, rep, 'chinese_remainder')
    if not r.ok:
        return
    us, ms = r.params
    if not isinstance(us, SSeq) or not isinstance(ms, SSeq):
        rep.bad('chinese_remainder:signature', 'arguments are not sequences')
        return
    u, m, nu, nm = us.base, ms.base, us.n, ms.n
    for o, v in r.rets():
        k, x = opt(r, o, v)
        pc0 = o.st.pc
        if k == 'none':
            if pc0.ne(nu - nm) or crt_reason(pc0, m, nm):
                r.good(o, 'None only for unequal lengths, a zero modulus or non-coprime moduli')
            else:
                r.bad(o, 'none', 'returns None although the moduli may be non-zero and pairwise coprime')
            continue
        if k != 'some' or x is None:
            r.bad(o, 'shape', 'result %r is not understood' % (v,))
            continue
        if not pc0.eq(nu - nm):
            r.bad(o, 'length', 'returns a value although the lengths may differ')
            continue
        i = sk('U')
        okay = True
        for q in assume(pc0, f_and(f_ge(i), f_ge(nm - 1 - i))):
            for q2, e in split_at(q, x, m, i):
                try:
                    q2 = q2.copy()
                    for base in sorted(created_seqs(e) | {m}, key=str):
                        if base not in (u,):
                            apply_alls(q2, [(base, i)])
                    ii = q2.norm(i)
                    good = q2.eq(e - mk_el(u, ii), extra=[mk_el(m, ii)])
                except Infeasible:
                    continue
                if not good:
                    okay = False
                    r.bad(o, 'congruence', 'result = u[i] (mod m[i]) does not follow for every index i', q2)
                    break
        if okay:
            r.good(o, 'result = u[i] (mod m[i]) for every i')


def crt_reason(pc, m, n):
    els = set()
    pool = list(pc.eqs) + list(pc.nes) + list(pc.ges) + list(pc.sub.values()) + [P.a(a) for a in pc.sub]
    for k, p in pc.trace:
        pool.append(p)
    for p in pool:
        for a in p.deps() | p.atoms() | set().union(*[interp_alldeps(x) for x in p.atoms()] or [set()]):
            kk, ar = ATOMS[a]
            if kk == 'el' and ar[0] == m:
                els.add(ar[1])
    els = [j for j in els if pc.ge(j) and pc.ge(n - 1 - j)]
    for j in els:
        e = mk_el(m, pc.norm(j))
        if pc.eq(e):
            return True
        g = mk_gcd(mk_prod(m, P.c(0), pc.norm(j)), e)
        if pc.ne(g - 1):
            return True
        for j2 in els:
            if j2 != j and pc.ne(j - j2) and pc.ne(mk_gcd(e, mk_el(m, pc.norm(j2))) - 1):
                return True
    return False


def interp_alldeps(i):
    from terms import _alldeps
    return _alldeps(i)


# ------------------------------------------------------------------- A07
def fact(n):
    return mk_rprod(P.c(1), n)


def natural(prog, rep, fname, f, what):
    r = Run(prog, rep, fname)
    if not r.ok:
        return
    n = r.p(0)
    for o, v in r.rets():
        x = r.i(o, v)

        def judge(pc):
            for q, _ in split(pc, f_eq(n), f_eq(n - 1), f_eq(n - 2)):
                yield q, None if x is not None and q.eq(x - f(q.norm(n))) else '%s expected, got %s' % (what, v if x is None else show(q.norm(x)))
        cases(r, o, v, judge, what)


def A07(prog, rep):
    natural(prog, rep, 'factorial_fold_u', fact, 'n!')
    r = Run(prog, rep, 'factorial_i')
    if not r.ok:
        return
    n = r.p(0)
    for o, v in r.rets():
        e = errname(r, o, v)
        x = r.i(o, v.fs[0]) if is_adt(v, 'Ok') else None

        def judge(pc):
            for q, (neg, big, z) in split(pc, f_ge(-n - 1), f_ge(n - IMAX - 1), f_eq(n)):
                if neg:
                    yield q, None if e == 'ComplexInfinity' else 'negative n must give ComplexInfinity, got %r' % (v,)
                elif big and e == 'OverFlow':
                    yield q, None
                else:
                    yield q, None if x is not None and q.eq(x - fact(q.norm(n))) else 'n! expected, got %r' % (v,)
        cases(r, o, v, judge, 'factorial')


# ------------------------------------------------------------------- A08
def A08(prog, rep):
    natural(prog, rep, 'fibonacci_fold_u', mk_fib, 'F(n)')
    natural(prog, rep, 'fibonacci_fast_u', mk_fib, 'F(n)')
    r = Run(prog, rep, 'fibonacci_i')
    if not r.ok:
        return
    n = r.p(0)
    for o, v in r.rets():
        e = errname(r, o, v)
        x = r.i(o, v.fs[0]) if is_adt(v, 'Ok') else None

        def judge(pc):
            h = mk_fdiv(n, P.c(2))
            for q, (neg, big, z, even) in split(pc, f_ge(-n - 1), f_or(f_ge(n - IMAX - 1), f_ge(-n - IMAX - 2)), f_eq(n), f_eq(n - 2 * h)):
                if e == 'OverFlow':
                    yield q, None if big else 'overflow reported for an index within the machine word'
                    continue
                nn = q.norm(n)
                want = mk_fib(nn) if not neg else (-mk_fib(-nn) if even else mk_fib(-nn))
                yield q, None if x is not None and q.eq(x - want) else 'F(n) expected (F(-n) = (-1)^(n+1) F(n)), got %r' % (
                    v if x is None else q.norm(x),)
        cases(r, o, v, judge, 'fibonacci')


# ------------------------------------------------------------------- A09/A10
def tabled(prog, rep, fname, table, what, opaque=None, general=None, limit=None):
    r = Run(prog, rep, fname, opaque=opaque)
    if not r.ok:
        return
    n = r.p(0)
    seen = set()
    ref = {10 ** k: v for k, v in enumerate(table)}
    for o, v in r.rets():
        e = errname(r, o, v)
        x = r.i(o, v.fs[0]) if is_adt(v, 'Ok') else None
        pc = o.st.pc
        c = pc.norm(n).const()
        if c is None:
            # which table keys does this path still admit?
            hit = [k for k in ref if not pc.ne(n - k) and assume(pc, f_eq(n - k))]
        else:
            hit = [c] if c in ref else []
        if c is not None and c in ref:
            if x is None or not pc.eq(x - ref[c]):
                r.bad(o, 'value@%d' % c, '%s(10^%d) must be %d, got %r' % (what, len(str(c)) - 1, ref[c], v))
            else:
                seen.add(c)
                r.good(o, '%s(10^%d) = %d' % (what, len(str(c)) - 1, ref[c]))
            continue

        def judge(pc):
            for q, (neg,) in split(pc, f_ge(-n - 1)):
                if neg:
                    yield q, None if e == 'Undefined' else 'negative argument must be the error Undefined, got %r' % (v,)
                    continue
                parts = [(q, None)]
                if limit is not None:
                    parts = split(q, f_ge(n - limit - 1))
                for q2, bs in parts:
                    big = bs[0] if bs else True
                    if e == 'Unimplemented':
                        # refusing is allowed outside the supported domain only
                        bad = [k for k in hit if not q2.ne(n - k) and assume(q2, f_eq(n - k))]
                        if bad:
                            yield q2, 'refuses %d = 10^%d, whose %s is tabulated' % (bad[0], len(str(bad[0])) - 1, what)
                        elif limit is not None and not big:
                            yield q2, 'refuses an argument within the supported range'
                        else:
                            yield q2, None
                    elif x is not None and general is not None and not big and q2.eq(x - general(q2.norm(n))):
                        yield q2, None
                    elif x is not None and q2.norm(n).const() is not None and 0 <= q2.norm(n).const() < 2 and q2.eq(x):
                        yield q2, None
                    else:
                        yield q2, 'the exact %s expected, got %r' % (what, v)
        cases(r, o, v, judge, what)
    if general is None:
        for k in ref:
            rep.need(k in seen, '%s:missing@%d' % (fname, k), '%s: 10^%d is answered with the tabulated value' % (fname, len(str(k)) - 1))


def A09(prog, rep):
    tabled(prog, rep, 'prime_count_i', PRIME_COUNT, 'number of primes')


def psum(n):
    return P.a(atom('psum', lift(n)))


def opaque_psum(I, args, st, span):
    v = I.D(st, args[0])
    if not isinstance(v, Int):
        return [interp.Outcome(st, 'ret', I.havoc_ty(0, st, 'prime_sum_u64 of unknown'))]
    out = []
    for q in assume(st.pc, f_ge(v.p - MAXU32 - 1)):
        s = st.copy()
        s.pc = q
        out.append(interp.Outcome(s, 'panic', ('u64 arithmetic of the prime sum sieve overflows',), span))
    for q in assume(st.pc, f_ge(P.c(MAXU32) - v.p)):
        s = st.copy()
        s.pc = q
        out.append(interp.Outcome(s, 'ret', Int(psum(q.norm(v.p)), ('u', 64))))
    return out


def A10(prog, rep):
    n = len(prog.find('prime_sum_u64'))
    if not rep.need(n == 1, 'prime_sum_u64:missing', 'anchor: sieve function prime_sum_u64 found once'):
        return
    tabled(prog, rep, 'prime_sum_i', PRIME_SUM, 'sum of primes', {'prime_sum_u64': opaque_psum}, psum, MAXU32)


def A11(prog, rep):
    """the sieve: exactly the sum of the primes <= n for every n <= 2^32-1"""
    r = Run(prog, rep, 'prime_sum_u64', pre=lambda r: [f_ge(P.c(MAXU32) - r.p(0))], lazy=True)
    if not r.ok:
        return
    n = r.p(0)
    for o in r.outs:
        if o.kind != 'ret':
            r.bad(o, 'panic', 'panics: %s' % (o.val,))
            continue
        v = r.I.D(o.st, o.val)
        if not isinstance(v, Int):
            r.bad(o, 'value', 'returns %r, not a sum' % (v,))
            continue
        pc, x = o.st.pc, o.st.pc.norm(v.p)
        i = single_atom(x)
        c = pc.norm(n).const()
        if c is not None and c < 10000:
            want = sum(q for q in range(2, c + 1) if all(q % d for d in range(2, isqrt(q) + 1)))
            r.rep.need(pc.eq(x - want), 'prime_sum_u64:value', '%s: the sum for n = %d is %d' % (r.loc(o), c, want))
        elif pc.ge(1 - n):
            r.rep.need(pc.eq(x), 'prime_sum_u64:value', '%s: the sum is 0 for n < 2 [%s]' % (r.loc(o), facts_str(pc)))
        elif i is not None and ATOMS[i][0] == 'phi' and x == P.a(i):
            k, e = ATOMS[i][1]
            good = pc.eq(k - n) and (pc.ge(e - P.a(atom('isqrt', pc.norm(n)))) or pc.ge(e * e + 2 * e - n))
            r.rep.need(good, 'prime_sum_u64:value', '%s: the entry of n after sieving by every prime up to the square root of n is returned, got the '
                       'entry of %s sieved up to %s [%s]' % (r.loc(o), show(k), show(e), facts_str(pc)))
        else:
            r.bad(o, 'value', 'returns %s, not the entry of n of the sieve%s' % (
                show(x), '' if not r.I.notes else ' (unmodelled: %s)' % '; '.join(r.I.notes[:3])))


SPECS = {'A01': A01, 'A02': A02, 'A03': A03, 'A04': A04, 'A05': A05, 'A06': A06, 'A07': A07, 'A08': A08, 'A09': A09, 'A10': A10, 'A11': A11}
