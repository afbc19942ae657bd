"""Lists described by formulas and tables of partial sieve sums (A11).

phi(k, e) = sum of the integers in 2..k that are prime or have no prime factor
<= e, modulo 2^64.  The laws used, with q = e + 1:
  phi(k, 1) = k (k + 1) / 2 - 1
  phi(q, e) - phi(e, e) = q if q is prime, 0 otherwise              (q >= 2)
  q composite or q^2 > k:  phi(k, q) = phi(k, e)
  q prime and q^2 <= k:    phi(k, q) = phi(k, e) - q (phi(k / q, e) - phi(e, e)),
                           the product being between 0 and phi(k, e)
  e^2 >= k or (e+1)^2 > k: phi(k, e) = sum of the primes <= k"""
from vals import *

U64 = (1 << 64) - 1
BOUNDS = (65535, (1 << 32) - 1)


def mk_phi(k, e):
    return P.a(atom('phi', lift(k), lift(e)))


def mk_isp(q):
    return P.a(atom('isp', lift(q)))


def fact(pc, p):
    """record the true inequality p >= 0"""
    p = pc.norm(p)
    if p.const() is None and p not in pc.ges:
        pc.add_ge(p)


# ------------------------------------------------------------------- bounds
def bound(pc, p):
    """least constant of BOUNDS known to be >= p >= 0"""
    if not pc.ge(p):
        return None
    for b in BOUNDS:
        if pc.ge(P.c(b) - p):
            return b
    return None


def product_facts(st, a, b):
    """bounds of the product of two bounded naturals"""
    a, b = st.pc.norm(a), st.pc.norm(b)
    if a.const() is not None or b.const() is not None:
        return
    if st.pc.ge(a) and st.pc.ge(b):
        for u, w in ((a, b), (b, a)):
            if st.pc.ge(u - 1):
                fact(st.pc, a * b - w)
    x = bound(st.pc, a)
    if x is None:
        return
    y = x if a == b else bound(st.pc, b)
    if y is None:
        return
    fact(st.pc, P.c(x) * b - a * b)
    fact(st.pc, P.c(y) * a - a * b)
    fact(st.pc, a * b)


def square_facts(pc, p):
    """x^2 >= x for the squares in p"""
    for m in p.t:
        if len(m) == 1 and m[0][1] == 2:
            fact(pc, P({m: 1}) - P.a(m[0][0]))


def sqrt_facts(st, a, r):
    for b, s in ((BOUNDS[1], BOUNDS[0]), (U64, BOUNDS[1])):
        if st.pc.ge(P.c(b) - a):
            fact(st.pc, P.c(s) - r)
            break
    fact(st.pc, a - r * r)
    fact(st.pc, r * r + 2 * r - a)
    fact(st.pc, r * r - r)


def is_div(p):
    """(a, b) when p is the quotient a / b of naturals"""
    s = single_atom(p)
    if s is not None and p == P.a(s) and ATOMS[s][0] in ('fdiv', 'tdiv'):
        return ATOMS[s][1]
    return None


def div_facts(st, p):
    """x >= q^2 implies x / q >= q; nested quotients decrease"""
    d = is_div(st.pc.norm(p))
    if d is None:
        return
    x, q = d
    pc = st.pc
    if pc.ge(q - 1) and pc.ge(x):
        fact(pc, x - p)
        fact(pc, p)
        if pc.ge(x - q * q):
            fact(pc, p - q)
        if pc.ge(x - q):
            fact(pc, p - 1)


# -------------------------------------------------------------------- lists
def lseq_seg(st, v, idx):
    """number of the segment position idx lies in, when decided"""
    lo = P.c(0)
    idx = st.pc.norm(idx)
    for i, (j, n, f) in enumerate(v.segs):
        if st.pc.ge(idx - lo) and st.pc.ge(lo + n - 1 - idx):
            return i, lo
        lo = lo + n
    return None


def lcases(I, st, v, idx):
    """(state, element) with the segment of position idx decided (idx in range)"""
    if not isinstance(v, LSeq):
        return [(st, I.seq_at(st, v, idx))]
    s = lseq_seg(st, v, idx)
    if s is not None:
        return [(st, seg_at(st, v, idx, *s))]
    out, lo = [], P.c(0)
    for i, (j, n, f) in enumerate(v.segs):
        for s in I.fork(st, f_and(f_ge(idx - lo), f_ge(lo + n - 1 - idx))):
            out.append((s, seg_at(s, v, idx, i, lo)))
        lo = lo + n
    return out


def lseq_at(I, st, v, idx):
    s = lseq_seg(st, v, idx)
    if s is None:
        return Top('segment of position %s undecided' % idx)
    return seg_at(st, v, idx, *s)


def seg_at(st, v, idx, i, lo):
    j, n, f = v.segs[i]
    p = st.pc.norm(subst(f, {j: st.pc.norm(idx) - lo}, deep=True))
    facts(st, p)
    return Int(p, v.ty)


def facts(st, p):
    div_facts(st, p)
    b = bound(st.pc, p)
    if b is not None and p.const() is None:
        fact(st.pc, P.c(b) * p - p * p)
        fact(st.pc, p * p)


def new_pos():
    NEXT_SK[0] += 1
    return atom('v', 'pos%d' % NEXT_SK[0], ('u', 63))


def split(I, it):
    """the iterator as consecutive iterators over one segment each"""
    acc = it.acc
    k = acc[0]
    if it.hi is None:
        raise I.models.NoModel('unbounded iterator')
    n = it.hi - it.lo
    if k == 'seq' and isinstance(acc[1], LSeq):
        if it.lo.t or it.hi != acc[1].len():
            raise I.models.NoModel('part of a described list')
        return [It(0, m, ('poly', j, f, acc[1].ty, acc[2] == 'ref')) for j, m, f in acc[1].segs]
    if k in ('map', 'deref'):
        inner = acc[1]
        if it.lo.t:
            raise I.models.NoModel('advanced iterator')
        return [It(0, s.hi - s.lo, (k, s) + tuple(acc[2:])) for s in split(I, It(inner.lo, inner.lo + it.hi, inner.acc) if k == 'map' else inner)]
    if k == 'rev':
        return [It(0, s.hi - s.lo, ('rev', s)) for s in reversed(split(I, acc[1]))]
    if k == 'chain':
        if it.lo.t:
            raise I.models.NoModel('advanced iterator')
        return split(I, acc[1]) + split(I, acc[2])
    return [it]


def simple(acc):
    """every leaf of the iterator is a range or a described list"""
    k = acc[0]
    if k in ('range', 'poly'):
        return True
    if k == 'seq':
        return isinstance(acc[1], LSeq)
    if k in ('map', 'deref', 'rev'):
        return simple(acc[1].acc)
    if k == 'chain':
        return simple(acc[1].acc) and simple(acc[2].acc)
    return False


def nonempty_lens(I, st, its):
    """lengths are differences that may be negative for empty ranges: drop
    provably empty parts, fork on undecided ones"""
    cur = [(st, [])]
    for it in its:
        n = it.hi - it.lo
        nxt = []
        for s, acc in cur:
            if s.pc.ge(n):
                nxt.append((s, acc + [it]))
            elif s.pc.ge(-n):
                nxt.append((s, acc))
            else:
                nxt += [(q, acc + [it]) for q in I.fork(s, f_ge(n))] + [(q, acc) for q in I.fork(s, f_ge(-n - 1))]
        cur = nxt
    return cur


def generic(I, st, it):
    """(J, length, outcomes at the generic position)"""
    j = new_pos()
    s = st.copy()
    n = it.hi - it.lo
    try:
        fact(s.pc, P.a(j))
        fact(s.pc, n - 1 - P.a(j))
    except Infeasible:
        return j, n, []
    return j, n, I.models.elem(I, s, it.acc, it.lo + P.a(j))


def collect_list(I, st, it):
    """outcomes of collecting integers into a described list, or None"""
    if not simple(it.acc):
        return None
    out = []
    for s0, parts in nonempty_lens(I, st, split(I, it)):
        segs, ty, pans = [], None, []
        for part in parts:
            j, n, outs = generic(I, s0, part)
            rets = [o for o in outs if o.kind == 'ret']
            pans += [o for o in outs if o.kind != 'ret']
            if not outs:
                continue
            vs = [I.D(o.st, o.val) for o in rets]
            if len(rets) != 1 or not isinstance(vs[0], Int):
                return None
            segs.append((j, n, rets[0].st.pc.norm(vs[0].p)))
            ty = vs[0].ty
        out += pans
        out.append(I.models._O(s0.copy(), 'ret', LSeq(segs, ty or ('u', 64)) if segs else Seq(())))
    return out


def concat(I, st, v, w):
    a = v.segs if isinstance(v, LSeq) else ()
    return LSeq(a + w.segs, w.ty)


def as_lseq(v):
    """a list of known integers as segments of length one"""
    if isinstance(v, LSeq):
        return v
    if isinstance(v, Seq) and all(isinstance(x, Int) for x in v.vs):
        return LSeq([(new_pos(), P.c(1), x.p) for x in v.vs], v.vs[0].ty if v.vs else ('u', 64))
    return None


def lslice(I, st, v, lo, hi):
    """v[lo..hi]"""
    lo, hi = st.pc.norm(lo), st.pc.norm(hi)
    segs, off = [], P.c(0)
    for j, n, f in v.segs:
        a, b = lo - off, hi - off
        if st.pc.ge(-a):
            a = P.c(0)
        elif st.pc.ge(a - n):
            off = off + n
            continue
        elif not (st.pc.ge(a) and st.pc.ge(n - a)):
            return Top('slice bound between segments')
        if st.pc.ge(b - n):
            b = n
        elif st.pc.ge(-b):
            break
        elif not (st.pc.ge(b) and st.pc.ge(n - b)):
            return Top('slice bound between segments')
        if (b - a) != P.c(0):
            k = new_pos()
            segs.append((k, b - a, subst(f, {j: P.a(k) + a}, deep=True)))
        off = off + n
    return LSeq(segs, v.ty)


def same_segs(a, b):
    """syntactic equality up to the names of positions"""
    if a is b:
        return True
    if len(a.segs) != len(b.segs):
        return False
    for (j, n, f), (k, m, g) in zip(a.segs, b.segs):
        if n != m or f != subst(g, {k: P.a(j)}, deep=True):
            return False
    return True


def eq_lists(pc, a, b):
    """same elements, merging a segment with the single elements after it"""
    A, B = [list(x) for x in a.segs], [list(x) for x in b.segs]
    A = [x for x in A if not pc.eq(x[1])]
    B = [x for x in B if not pc.eq(x[1])]
    i = k = 0
    while i < len(A) and k < len(B):
        (ja, na, fa), (jb, nb, fb) = A[i], B[k]
        j = new_pos()
        if pc.eq(na - nb):
            n, nexta, nextb = na, True, True
        elif pc.ge(nb - na):
            n, nexta, nextb = na, True, False
        elif pc.ge(na - nb):
            n, nexta, nextb = nb, False, True
        else:
            return False
        q = pc.copy()
        try:
            q.add_ge(P.a(j))
            q.add_ge(n - 1 - P.a(j))
            if not q.eq(subst(fa, {ja: P.a(j)}, deep=True) - subst(fb, {jb: P.a(j)}, deep=True)):
                return False
        except Infeasible:
            pass
        if nexta:
            i += 1
        else:
            A[i] = [ja, na - n, subst(fa, {ja: P.a(ja) + n}, deep=True)]
        if nextb:
            k += 1
        else:
            B[k] = [jb, nb - n, subst(fb, {jb: P.a(jb) + n}, deep=True)]
    return i == len(A) and k == len(B)


# ------------------------------------------------------------------- tables
def classify(pc, dom):
    """segments as ('div', N, c, n) = N/c, N/(c+1), ... or ('down', c, n) = c, c-1, ..."""
    out = []
    for j, n, f in dom.segs:
        f = pc.norm(f)
        d = is_div(f)
        J = P.a(j)
        if d is not None and j not in d[0].deps() and j not in (d[1] - J).deps():
            out.append(('div', d[0], d[1] - J, n))
        elif j not in (f + J).deps():
            out.append(('down', f + J, n))
        elif d is not None and j not in d[0].deps() and j not in (d[1] + J).deps():
            out.append(('other',))
        elif j not in f.deps() and pc.eq(n - 1):
            out.append(('down', f, n))
        else:
            out.append(('other',))
    return out


def shape(pc, dom):
    """(N, r, lo) when dom is N/1, ..., N/r, N/r - 1, ..., lo, strictly
    descending; a leading N may stand apart"""
    cl = classify(pc, dom)
    N, r = None, P.c(0)
    k = 0
    while k < len(cl) and (cl[k][0] == 'div' or (N is None or r == P.c(0))):
        c = cl[k]
        if c[0] == 'div':
            if N is None:
                N = c[1]
            if not pc.eq(c[1] - N) or not pc.eq(c[2] - r - 1):
                return None
            r = r + c[3]
        elif c[0] == 'down' and k == 0 and len(cl) > 1 and cl[1][0] == 'div' and pc.eq(c[2] - 1) and pc.eq(c[1] - cl[1][1]):
            N, r = c[1], P.c(1)
        else:
            return None
        k += 1
    if N is None or not (pc.ge(r - 1) and pc.ge(N - r * r)):
        return None
    r = pc.norm(r)
    last = pc.norm(mk_fdiv(N, r))
    lo = None
    top = last - 1
    for c in cl[k:]:
        if c[0] != 'down' or not pc.eq(c[1] - top):
            return None
        top = top - c[2]
    lo = top + 1
    return N, r, last, pc.norm(lo)


def chain_of(pc, key, N, depth=4):
    """key is N / d1 / d2 ... with every d >= 1"""
    for _ in range(depth):
        if pc.eq(key - N):
            return True
        d = is_div(pc.norm(key))
        if d is None or not pc.ge(d[1] - 1):
            return False
        key = d[0]
    return False


def member(st, g, key):
    """key is provably a key of g"""
    if g.cnt is not None:
        return False
    pc = st.pc
    sh = shape(pc, g.dom)
    if sh is None:
        return False
    N, r, last, lo = sh
    # r^2 <= N, hence N / r >= r
    fact(pc, last - r)
    div_facts(st, key)
    # key^2 <= N < (r + 1)^2
    if key.const() != 0 and pc.ge(N - key * key) and pc.ge(r * r + 2 * r - N):
        fact(pc, r - key)
    if not pc.ge(key - lo):
        return False
    if pc.ge(last - key) or chain_of(pc, key, N):
        return True
    d = is_div(pc.norm(key))
    return d is not None and pc.ge(d[1] - 1) and pc.ge(last - d[0])


def get(I, st, g, key):
    """[(state, value polynomial)] of the entry for key; None when undecided"""
    key = st.pc.norm(key)
    g = whole(st, g)
    if not member(st, g, key):
        return None
    pc = st.pc
    e, q = g.e, g.e + 1
    if not pc.ge(key - 1) or not pc.ge(e - 1):
        return None
    if pc.eq(g.upto) or pc.ge(q * q - 1 - key):
        st_e = e
    else:
        fact(pc, q * q - q)
        cur = lseq_at(I, st, g.dom, g.upto)
        if isinstance(cur, Int) and pc.ge(cur.p - key):
            st_e = e
        else:
            return None
    if pc.eq(key - st_e - 1) and pc.ge(key - 2):
        out = []
        isp = mk_isp(pc.norm(key))
        for s in I.fork(st, f_eq(isp)):
            out.append((s, base(s, st_e)))
        for s in I.fork(st, f_eq(isp - 1)):
            out.append((s, base(s, st_e) + key))
        for s, v in out:
            fact(s.pc, v)
            fact(s.pc, P.c(U64) - v)
        return out
    v = value(pc, key, st_e)
    fact(pc, v)
    fact(pc, P.c(U64) - v)
    d = is_div(key)
    if d is not None and pc.eq(d[1] - q) and pc.ge(d[0] - q * q) and pc.eq(mk_isp(pc.norm(q)) - 1):
        x = value(pc, pc.norm(d[0]), e)
        b = base(st, e)
        fact(pc, v - b)
        fact(pc, x - q * v + q * b)
        fact(pc, x)
        fact(pc, P.c(U64) - x)
        fact(pc, q * v - q * b)
    return [(st, v)]


def base(st, e):
    return value(st.pc, e, e)


def value(pc, k, e):
    return mk_phi(pc.norm(k), pc.norm(e))


def initial(I, st, key, val):
    """val is phi(key, 1), i.e. key (key + 1) / 2 - 1 modulo 2^64"""
    pc = st.pc
    # key^2 + key is even, so its half is exact
    h = mk_fdiv(pc.norm(key * key + key), P.c(2))
    t = I.quot(st, key * key + key, P.c(2))
    return pc.eq(val - h + 1) or pc.eq(val - t + 1) or pc.eq(val - h - U64) or pc.eq(val - t - U64)


def put(I, st, g, key, val):
    """g after an existing entry is overwritten, or None when the new content
    is not described by a stage"""
    pc = st.pc
    key = pc.norm(key)
    g = whole(st, g)
    if g.cnt is not None:
        return None
    cur = lseq_at(I, st, g.dom, g.upto)
    if not isinstance(cur, Int) or not pc.eq(cur.p - key):
        # positions without a change may be skipped: the key must be a later one
        return None
    e, q = g.e, pc.norm(g.e + 1)
    isp = mk_isp(q)
    x = value(pc, key, e)
    if pc.eq(isp - 1) and pc.ge(key - q * q):
        v = value(pc, pc.norm(mk_fdiv(key, q)), e)
        want = x - q * (v - base(st, e))
    elif pc.ge(q * q - 1 - key) or pc.eq(isp):
        want = x
    else:
        return None
    if not pc.eq(val - want):
        return None
    return GMap(g.dom, g.e, g.upto + 1, g.cnt, g.ty)


def add_key(I, st, g, key, val):
    """insertion of the next key while the table is built"""
    if g.cnt is None:
        return None
    cur = lseq_at(I, st, g.dom, g.cnt)
    if not isinstance(cur, Int) or not st.pc.eq(cur.p - key) or not initial(I, st, key, val):
        return None
    return GMap(g.dom, g.e, g.upto, g.cnt + 1, g.ty)


def whole(st, g):
    """the same table without a count once every key is present"""
    if g.cnt is not None and st.pc.ge(g.cnt - g.dom.len()):
        return GMap(g.dom, g.e, g.upto, None, g.ty)
    return g


def eq_tables(I, st, a, b):
    """a and b describe the same contents"""
    pc = st.pc
    if not same_segs(a.dom, b.dom):
        return False
    if (a.cnt is None) != (b.cnt is None):
        a, b = whole(st, a), whole(st, b)
        if (a.cnt is None) != (b.cnt is None):
            return False
    if a.cnt is not None and not pc.eq(a.cnt - b.cnt):
        return False
    if pc.eq(a.e - b.e):
        if pc.eq(a.upto - b.upto):
            return True
        q = pc.norm(a.e + 1)
        if pc.eq(mk_isp(q)):
            return True
        if pc.eq(b.upto - a.upto - 1):
            return all_below(I, st, a, q)
        return False
    if pc.eq(b.e - a.e - 1) and pc.eq(b.upto):
        q = pc.norm(a.e + 1)
        if pc.eq(mk_isp(q)):
            return True
        if a.cnt is not None:
            return False
        if pc.ge(a.upto - a.dom.len()):
            return True
        return all_below(I, st, a, q)
    return False


def all_below(I, st, a, q):
    """the keys from position a.upto on are below q^2 (the keys descend)"""
    if shape(st.pc, a.dom) is None:
        return False
    res = []
    for f in I.fork(st, f_ge(a.dom.len() - 1 - a.upto)):
        for s, cur in lcases(I, f, a.dom, a.upto):
            res.append(isinstance(cur, Int) and s.pc.ge(q * q - 1 - cur.p))
    return all(res)


def collect_table(I, st, it):
    """outcomes of collecting (key, phi(key, 1)) pairs into a table, or None"""
    if not simple(it.acc):
        return None
    out = []
    for s0, parts in nonempty_lens(I, st, split(I, it)):
        segs, pans, ty = [], [], ('u', 64)
        for part in parts:
            j, n, outs = generic(I, s0, part)
            if not outs:
                continue
            pans += [o for o in outs if o.kind != 'ret']
            key = None
            for o in outs:
                if o.kind != 'ret':
                    continue
                x = I.D(o.st, o.val)
                if not isinstance(x, Tup) or len(x.fs) != 2:
                    return None
                k, v = I.D(o.st, x.fs[0]), I.D(o.st, x.fs[1])
                if not isinstance(k, Int) or not isinstance(v, Int):
                    return None
                if key is None:
                    key = o.st.pc.norm(k.p)
                    if any(ATOMS[a][0] == 'v' and a in o.st.pc.sub for a in [j]):
                        key = k.p
                if not o.st.pc.eq(k.p - key) or not initial(I, o.st, k.p, v.p):
                    return None
                ty = v.ty
            if key is None:
                return None
            segs.append((j, n, key))
        dom = LSeq(segs, ('u', 64))
        if shape(s0.pc, dom) is None:
            return None
        out += pans
        out.append(I.models._O(s0.copy(), 'ret', GMap(dom, 1, 0, None, ty)))
    return out


# -------------------------------------------------------------------- loops
def lists_in(st, skip=()):
    """described lists occurring in the cells of a state"""
    out = []

    def walk(v, d=0):
        if d > 6:
            return
        if isinstance(v, LSeq):
            if not any(same_segs(v, o) for o in out):
                out.append(v)
        elif isinstance(v, (Adt, Tup, Clo)):
            for x in v.fs:
                walk(x, d + 1)
        elif isinstance(v, VRef):
            walk(v.v, d + 1)
        elif isinstance(v, It):
            acc(v.acc, d + 1)
        elif isinstance(v, GMap):
            walk(v.dom, d + 1)

    def acc(a, d):
        for x in a[1:]:
            if isinstance(x, It):
                acc(x.acc, d + 1)
            elif isinstance(x, Val):
                walk(x, d + 1)
    for c, v in st.cells.items():
        walk(v)
    return out


def table_forms(I, S0, v0):
    """descriptions of a table after k iterations, as functions of k"""
    forms = []
    if isinstance(v0, GMap):
        v0 = whole(S0, v0)
        forms.append(('stage', lambda k: GMap(v0.dom, v0.e + k, v0.upto, v0.cnt, v0.ty)))
        forms.append(('partial', lambda k: GMap(v0.dom, v0.e, v0.upto + k, v0.cnt, v0.ty)))
        if v0.cnt is not None:
            forms.append(('filled', lambda k: GMap(v0.dom, v0.e, v0.upto, v0.cnt + k, v0.ty)))
        forms.append(('same', lambda k: v0))
    elif isinstance(v0, Map) and not v0.known and v0.rel is None:
        for L in lists_in(S0):
            if shape(S0.pc, L) is not None:
                forms.append(('filled', lambda k, L=L: GMap(L, 1, 0, k)))
    return forms
