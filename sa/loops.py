"""Loop heads and recursion: recurrence solving with inductive verification.

A loop is summarised by expressing every changed integer at its head as a
closed form in the iteration number k (constant, affine, power, product of a
progression or of sequence elements, mixed-radix Horner form, Fibonacci pair,
each possibly modulo recorded divisors).  A closed form is a guess until the
generic iteration from k to k+1 has been shown to preserve it; what has no
verified closed form becomes an arbitrary value (functional in k)."""
from vals import *

UNROLL = 70


# ------------------------------------------------------------ leaves of values
def diff(a, b, path=()):
    """paths of the differing leaves of two values"""
    if a is b:
        return []
    if isinstance(a, Int) and isinstance(b, Int):
        return [] if a.p == b.p else [path]
    if isinstance(a, Bool) and isinstance(b, Bool):
        return [] if a.f == b.f else [path]
    if isinstance(a, Str) and isinstance(b, Str):
        return [] if a.s == b.s and a.s is not None else [path]
    if type(a) is type(b):
        if isinstance(a, Adt):
            if a.name == b.name and a.v == b.v and len(a.fs) == len(b.fs):
                return [q for i, (x, y) in enumerate(zip(a.fs, b.fs)) for q in diff(x, y, path + (('f', i),))]
            return [path]
        if isinstance(a, (Tup, Clo)) and len(a.fs) == len(b.fs):
            return [q for i, (x, y) in enumerate(zip(a.fs, b.fs)) for q in diff(x, y, path + (('f', i),))]
        if isinstance(a, VRef):
            return diff(a.v, b.v, path + (('d',),))
        if isinstance(a, Ref):
            return [] if (a.cell, a.path) == (b.cell, b.path) else [path]
        if isinstance(a, Bx):
            return [] if a.cell == b.cell else [path]
        if isinstance(a, It):
            if same_acc(a.acc, b.acc):
                out = []
                if a.lo != b.lo:
                    out.append(path + (('lo',),))
                if a.hi != b.hi:
                    out.append(path + (('hi',),))
                return out
            return [path]
        if isinstance(a, Seq):
            if len(a.vs) == len(b.vs):
                if all(not diff(x, y) for x, y in zip(a.vs, b.vs)):
                    return []
                if len(a.vs) <= 8:
                    return [q for i, (x, y) in enumerate(zip(a.vs, b.vs)) for q in diff(x, y, path + (('e', i),))]
            return [path]
        if isinstance(a, SSeq):
            if (a.base, a.off, a.n, len(a.tail)) == (b.base, b.off, b.n, len(b.tail)) and \
                    all(not diff(x, y) for x, y in zip(a.tail, b.tail)):
                return []
            return [path]
        if isinstance(a, LSeq):
            import sieve
            return [] if sieve.same_segs(a, b) else [path]
        if isinstance(a, GMap):
            import sieve
            same = sieve.same_segs(a.dom, b.dom) and (a.e, a.upto, a.cnt) == (b.e, b.upto, b.cnt)
            return [] if same else [path]
        if isinstance(a, Map):
            if a.rel is b.rel and len(a.known) == len(b.known) and \
                    all(x[0] == y[0] and not diff(x[1], y[1]) for x, y in zip(a.known, b.known)):
                return []
            return [path]
        if isinstance(a, Fn):
            return []
        if isinstance(a, Top):
            return []
    return [path]


def same_acc(a, b):
    if a is b:
        return True
    if len(a) != len(b) or a[0] != b[0]:
        return False
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, Val) or isinstance(y, Val):
            if not (isinstance(x, Val) and isinstance(y, Val)) or diff(x, y):
                return False
        elif x != y:
            return False
    return True


def getv(v, path):
    for e in path:
        if e[0] == 'f':
            v = v.fs[e[1]]
        elif e[0] == 'e':
            v = v.vs[e[1]]
        elif e[0] == 'd':
            v = v.v
        elif e[0] == 'lo':
            v = Int(v.lo, ('i', 128))
        elif e[0] == 'hi':
            v = Int(v.hi, ('i', 128)) if v.hi is not None else Top('unbounded')
    return v


def setv(v, path, new):
    if not path:
        return new
    e, rest = path[0], path[1:]
    if e[0] == 'f':
        fs = list(v.fs)
        fs[e[1]] = setv(fs[e[1]], rest, new)
        if isinstance(v, Adt):
            return Adt(v.name, v.v, v.vn, fs)
        return Tup(fs) if isinstance(v, Tup) else Clo(v.inst, fs, v.dn)
    if e[0] == 'e':
        vs = list(v.vs)
        vs[e[1]] = setv(vs[e[1]], rest, new)
        return Seq(vs)
    if e[0] == 'd':
        return VRef(setv(v.v, rest, new))
    if e[0] == 'lo':
        return It(new.p, v.hi, v.acc)
    return It(v.lo, new.p, v.acc)


def ok_path(v, path):
    try:
        getv(v, path)
        return True
    except Exception:
        return False


def shape_of(v):
    if isinstance(v, Int):
        return ('int', v.ty)
    if isinstance(v, Bool):
        return ('bool',)
    if isinstance(v, Tup):
        return ('tup', tuple(shape_of(x) for x in v.fs))
    if isinstance(v, VRef):
        return ('ref', shape_of(v.v))
    return ('top',)


def elem_facts(I, base, idx, v, shape):
    """equalities saying that element idx of base is v"""
    if shape[0] == 'int' and isinstance(v, Int):
        return [mk_el(base, idx, shape[1]) - v.p]
    if shape[0] == 'tup' and isinstance(v, Tup):
        return [f for i, (x, s) in enumerate(zip(v.fs, shape[1])) for f in elem_facts(I, '%s.%d' % (base, i), idx, x, s)]
    if shape[0] == 'ref' and isinstance(v, VRef):
        return elem_facts(I, base, idx, v.v, shape[1])
    return []


# ------------------------------------------------------------ the loop rule
def const_iter(st, back):
    """some iterator with constant bounds advances in this loop"""
    for c in st.cells:
        if c not in back.cells:
            continue
        for pth in diff(st.cells[c], back.cells[c]):
            if pth and pth[-1][0] in ('lo', 'hi'):
                it = getv(st.cells[c], pth[:-1])
                try:
                    it2 = getv(back.cells[c], pth[:-1])
                except Exception:
                    continue
                if not isinstance(it, It) or not isinstance(it2, It):
                    continue
                if not ((it2.lo == it.lo + 1 and it2.hi == it.hi) or
                        (it2.lo == it.lo and it.hi is not None and it2.hi == it.hi - 1)):
                    continue
                if it.lo.is_const() and it.hi is not None and it.hi.is_const() and (it.hi - it.lo).const() <= UNROLL:
                    return True
    return False


def unroll(I, st, step):
    done = []
    cur = [st]
    n = 0
    while cur:
        n += 1
        if n > UNROLL + 2:
            return None
        nxt = []
        for s in cur:
            outs = step(s.copy())
            backs = [o for o in outs if o.kind == 'back']
            others = [o for o in outs if o.kind != 'back']
            if backs:
                single = len(backs) == 1 and not others
                if not single and not all(const_iter(s, b.st) for b in backs):
                    return None
                nxt += [b.st for b in backs]
            done += others
            if len(nxt) > 64:
                return None
        cur = nxt
    return done


def run(I, st, step, label):
    r = unroll(I, st, step)
    if r is not None:
        return r
    return summarise(I, st, step, label)


class Leaf:
    def __init__(self, cell, path, v0):
        self.cell, self.path, self.v0 = cell, path, v0
        self.kind = None       # int, bool, seq, top
        self.h = None          # havoc atom (P)
        self.closed = None     # closed form in k (P)
        self.mods = ()         # moduli of the closed form
        self.base = None
        self.sky = None
        self.forms = None      # candidate descriptions of a table (k -> value)
        self.items = None      # pushed element as a function of the counter

    def key(self):
        return (self.cell, self.path)


def summarise(I, st, step, label):
    changed = {}
    forbidden = set()
    S0 = st
    outs0 = step(S0.copy())
    backs0 = [o for o in outs0 if o.kind == 'back']
    exits0 = [o for o in outs0 if o.kind != 'back']
    if not backs0:
        return exits0
    notes0 = list(I.notes)

    def note_changes(ref, backs):
        new = False
        for b in backs:
            for c, v in ref.cells.items():
                if c not in b.st.cells:
                    continue
                for pth in diff(v, b.st.cells[c]):
                    # a change below or above an already recorded path
                    if any(k[0] == c and (pth[:len(k[1])] == k[1]) for k in changed):
                        continue
                    for k in [k for k in changed if k[0] == c and k[1][:len(pth)] == pth]:
                        del changed[k]
                    if not ok_path(S0.cells[c], pth):
                        pth = ()
                        for k in [k for k in changed if k[0] == c]:
                            del changed[k]
                    changed[(c, pth)] = Leaf(c, pth, getv(S0.cells[c], pth))
                    new = True
        return new

    note_changes(S0, backs0)
    # --- generic state with every changed leaf arbitrary
    for rnd in range(8):
        H = S0.copy()
        for lf in changed.values():
            havoc_leaf(I, S0, H, lf, [b.st for b in backs0])
        try:
            outs = step(H.copy())
        except Infeasible:
            outs = []
        backs = [o for o in outs if o.kind == 'back']
        if not note_changes(H, backs):
            break
    else:
        raise_giveup('loop state does not stabilise: ' + label)
    hbacks = backs
    sk_id = [0]
    kat = sk('U', *S0.ctx)
    (km, _), = kat.t.items()
    katom = km[0][0]
    leaves = list(changed.values())
    for attempt in range(24):
        solve_all(I, S0, leaves, hbacks, kat, katom, forbidden)
        K = S0.copy()
        K.ctx = S0.ctx + (kat,)
        bad = False
        try:
            K.pc.add_ge(kat)
            for lf in leaves:
                place_closed(I, K, lf, kat, K.ctx)
            invs = candidate_invariants(I, S0, leaves)
            if I.lazy:
                # what an arbitrary state could not decide is decided again
                I.notes[:] = notes0
            K, invs, outs = houdini(I, S0, K, leaves, invs, step, kat, katom)
        except Infeasible:
            return exits0
        backs = [o for o in outs if o.kind == 'back']
        # --- verify
        demote = []
        for b in backs:
            for c, v in K.cells.items():
                if c in b.st.cells:
                    for pth in diff(v, b.st.cells[c]):
                        if not any(lf.cell == c and pth[:len(lf.path)] == lf.path for lf in leaves):
                            for lf in [l for l in leaves if l.cell == c and l.path[:len(pth)] == pth]:
                                leaves.remove(lf)
                            if not ok_path(S0.cells[c], pth):
                                pth = ()
                            nl = Leaf(c, pth, getv(S0.cells[c], pth))
                            leaves.append(nl)
                            bad = True
            if bad:
                break
            for lf in leaves:
                if lf in demote or lf.kind == 'top':
                    continue
                if not step_ok(I, lf, b.st, kat, katom):
                    demote.append(lf)
        if bad:
            H = S0.copy()
            for lf in leaves:
                havoc_leaf(I, S0, H, lf, [b.st for b in backs])
            hbacks = [o for o in step(H.copy()) if o.kind == 'back']
            continue
        if demote:
            for lf in demote:
                forbidden.add((lf.key(), repr(lf.closed) if lf.kind == 'int' else lf.kind))
                demote_leaf(lf)
            continue
        break
    else:
        raise_giveup('loop summary does not stabilise: ' + label)
    if I.lazy:
        # the state after k >= 0 iterations was stepped already
        res = []
        invs = guard_facts(S0, K, backs, kat, katom)
        for o in outs:
            if o.kind == 'back':
                continue
            try:
                for g in invs:
                    I.sieve.square_facts(o.st.pc, g)
                    if not o.st.pc.ge(g):
                        o.st.pc.add_ge(g)
            except Infeasible:
                continue
            o.st.ctx = S0.ctx
            res.append(o)
        return res
    # --- exits after at least one complete iteration
    res = list(exits0)
    k1 = kat + 1
    per = []
    for b in backs:
        facts = list(b.st.pc.trace[len(K.pc.trace):])
        B = b.st
        for lf in leaves:
            facts += fold_leaf(I, lf, B, K, kat, katom)
        # express inner counters by this loop's counter where they are solved
        ren = inner_counters(B.pc, K)
        facts = list(dict.fromkeys((f[0], subst(f[1], ren, deep=True)) for f in facts))
        facts = [f for f in facts if f[1].const() is None]
        per.append((b, facts))
    common = common_facts(per)
    for b, facts in per:
        B = b.st
        ok_ = True
        if common:
            seqs = {}
            for f in common:
                for a in f[1].atoms() | set().union(*[_all_atoms(i) for i in f[1].atoms()] or [set()]):
                    kk, aa = ATOMS[a]
                    if kk == 'el':
                        c = aa[1] - kat
                        if katom not in c.deps():
                            seqs.setdefault(aa[0], set()).add(c)
            B.pc.alls = B.pc.alls + [(katom, P.c(0), k1, common, {s: list(c) for s, c in seqs.items()})]
        B.ctx = S0.ctx + (k1,)
        try:
            for o in step(B):
                if o.kind == 'panic' and beyond(o.st.pc, k1):
                    continue
                if o.kind != 'back':
                    o.st.ctx = S0.ctx
                    res.append(o)
        except Infeasible:
            pass
    for o in res:
        o.st.ctx = S0.ctx
    return res


def beyond(pc, k):
    """can this only happen after 2^62 iterations, one after the other"""
    q = pc.copy()
    try:
        q.add_ge(P.c(1 << 62) - k)
    except Infeasible:
        return True
    return False


def guard_facts(S0, K, backs, kat, katom):
    """what an iteration that was completed says about the number of iterations
    so far: facts of iteration k - 1, true for k = 0 too"""
    known = {katom}
    for v in S0.cells.values():
        for a in val_atoms(v):
            known |= {a} | _all_atoms(a)
    for g in K.pc.ges:
        known |= g.atoms()
    out = []
    for f in dict.fromkeys(backs[0].st.pc.trace[len(K.pc.trace):]) if backs else []:
        if f[0] != 'ge':
            continue
        g = backs[0].st.pc.norm(f[1])
        if katom not in g.deps() or not g.atoms() <= known:
            continue
        if not all(b.st.pc.ge(g) for b in backs[1:]):
            continue
        if S0.pc.ge(subst(g, {katom: P.c(-1)}, deep=True)):
            out.append(subst(g, {katom: kat - 1}, deep=True))
    return out


def val_atoms(v, d=0):
    """atoms of the integers in a value"""
    if d > 6:
        return set()
    if isinstance(v, Int):
        return set(v.p.atoms())
    if isinstance(v, (Adt, Tup, Clo)):
        return set().union(*[val_atoms(x, d + 1) for x in v.fs] or [set()])
    if isinstance(v, VRef):
        return val_atoms(v.v, d + 1)
    if isinstance(v, It):
        r = set(v.lo.atoms())
        return r | set(v.hi.atoms()) if v.hi is not None else r
    return set()


def inner_counters(pc, K):
    """substitution expressing counters of inner loops by those of K"""
    outer = set()
    for p in K.ctx:
        outer |= lift(p).atoms()
    for g in K.pc.ges:
        outer |= g.atoms()
    ren = {}
    for a, r in pc.sub.items():
        if ATOMS[a][0] not in ('sk', 'v'):
            continue
        e = subst(P.a(a) - r, ren)
        for m_, c in e.t.items():
            if len(m_) == 1 and m_[0][1] == 1 and abs(c) == 1 and ATOMS[m_[0][0]][0] == 'sk' and m_[0][0] not in outer:
                b = m_[0][0]
                rest = e - P({m_: c})
                if b in rest.deps():
                    continue
                r2 = -rest if c == 1 else rest
                ren = {x: subst(q, {b: r2}) for x, q in ren.items()}
                ren[b] = r2
                break
    return ren


def common_facts(per):
    """facts of one complete iteration that hold on every path through it"""
    if len(per) <= 1:
        return per[0][1] if per else []
    out = []
    pcs = []
    for b, facts in per:
        pc = b.st.pc.copy()
        try:
            for f in facts:
                if f[0] == 'eq' and any(ATOMS[a][0] == 'el' for a in f[1].atoms()):
                    pc.add_eq(f[1])
        except Infeasible:
            pc = b.st.pc
        pcs.append(pc)
    for j, (b, facts) in enumerate(per):
        for f0 in facts:
            f = f0
            if f in out:
                continue
            good = True
            for j2, (b2, facts2) in enumerate(per):
                f = f0
                if j2 == j or f in facts2:
                    continue
                pc = pcs[j2]
                f = (f[0], witness(f[1], b2.st.pc))
                if not (pc.eq(f[1]) if f[0] == 'eq' else pc.ne(f[1]) if f[0] == 'ne' else pc.ge(f[1])):
                    good = False
                    break
            if good:
                out.append(f0)
    return out


def witness(p, pc):
    """existential counters a path never constrained: 0 is a witness"""
    used = set()
    for q in list(pc.eqs) + list(pc.ges) + list(pc.nes) + list(pc.sub.values()):
        used |= q.atoms() | q.deps()
    used |= set(pc.sub)
    mp = {}
    for a in p.atoms() | p.deps():
        if ATOMS[a][0] == 'sk' and a not in used and len(ATOMS[a][1]) > 1:
            mp[a] = P.c(0)
    return subst(p, mp, deep=True) if mp else p


def _all_atoms(i):
    return set(_alldeps_(i))


def _alldeps_(i):
    import terms
    return terms._alldeps(i)


def raise_giveup(msg):
    import interp
    raise interp.Giveup(msg)


def havoc_leaf(I, S0, H, lf, backs):
    v0 = lf.v0
    cell = H.cells[lf.cell]
    if isinstance(v0, Int):
        lf.kind = 'int'
        ty = v0.ty
        if lf.h is None:
            NEXT_SK[0] += 1
            lf.h = P.a(atom('v', 'h%d' % NEXT_SK[0], ty))
        new = Int(lf.h, ty)
    elif isinstance(v0, Bool):
        lf.kind = 'bool'
        if lf.h is None:
            NEXT_SK[0] += 1
            lf.h = P.a(atom('v', 'h%d' % NEXT_SK[0], ('u', 1)))
        new = Bool(('fl', lf.h, True))
    elif I.lazy and isinstance(v0, (GMap, Map)):
        if lf.forms is None:
            lf.forms = I.sieve.table_forms(I, S0, v0)
            NEXT_SK[0] += 1
            lf.h = P.a(atom('v', 'h%d' % NEXT_SK[0], ('u', 63)))
        lf.kind = 'table' if lf.forms else 'top'
        new = lf.forms[0][1](lf.h) if lf.forms else Top('changed in loop')
    elif isinstance(v0, (Seq, SSeq)) or isinstance(v0, LSeq):
        shape = None
        vals = list(v0.vs) if isinstance(v0, Seq) else [Int(0, v0.ty)] if isinstance(v0, LSeq) else list(v0.tail)
        shs = {shape_of(x) for x in vals} | ({v0.shape} if isinstance(v0, SSeq) else set())
        for b in backs:
            try:
                bv = getv(b.cells[lf.cell], lf.path)
            except Exception:
                continue
            if isinstance(bv, Seq):
                shs |= {shape_of(x) for x in bv.vs}
            elif isinstance(bv, LSeq):
                shs |= {('int', bv.ty)}
            elif isinstance(bv, SSeq):
                shs |= {bv.shape} | {shape_of(x) for x in bv.tail}
        shs = {s for s in shs}
        lf.kind = 'seq'
        lf.shape = list(shs)[0] if len(shs) == 1 else ('top',)
        if lf.base is None:
            NEXT_SK[0] += 1
            lf.base = 'V%d' % NEXT_SK[0]
            lf.h = P.a(atom('v', 'len(%s)' % lf.base, ('u', 63)))
        new = SSeq(lf.base, 0, lf.h, lf.shape)
    else:
        lf.kind = 'top'
        new = Top('changed in loop')
    H.cells[lf.cell] = setv(cell, lf.path, new)


def demote_leaf(lf):
    if lf.kind == 'int':
        lf.closed, lf.mods = None, ()
    elif lf.kind == 'table':
        lf.forms = lf.forms[1:]
        if not lf.forms:
            lf.kind = 'top'
    elif lf.kind == 'seq' and lf.items is not None:
        lf.items = None
        lf.no_items = True
    elif lf.kind == 'seq':
        lf.kind = 'top' if getattr(lf, 'len_only', False) else 'seq'
        lf.len_only = True
    else:
        lf.kind = 'top'


# ------------------------------------------------------------ solving
def lin_in(p, a):
    """(A, B) with p = A*a + B, or None"""
    A, B = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.get(a, 0)
        if e == 0:
            B[m] = c
        elif e == 1:
            A[mdiv(m, ((a, 1),))] = c
        else:
            return None
    A, B = P(A), P(B)
    return A, B


def drop_quot(p):
    """drop the multiples of divisors introduced by remainders:
    (rest, set of divisors)"""
    mods = []
    for i in list(p.atoms()):
        k, a = ATOMS[i]
        if k in ('tdiv', 'fdiv'):
            r = lin_in(p, i)
            if r is None:
                continue
            A, B = r
            d = a[1]
            # A must be a multiple of the divisor
            s = single_atom(d)
            if s is not None and A.t and all(any(x == s for x, _ in m) for m in A.t):
                p = B
                mods.append(d)
            elif d.const() and all(c % d.const() == 0 for c in A.t.values()):
                p = B
                mods.append(d)
    return p, mods


def shift_dir(idx, kat, katom):
    """index expression as c + k or c - k: ('+', c) / ('-', c) / None"""
    c = idx - kat
    if katom not in c.deps():
        return ('+', c)
    c = idx + kat
    if katom not in c.deps():
        return ('-', c)
    return None


def prod_form(A, kat, katom):
    """closed form of prod_{j<k} A(j), or None"""
    if katom not in A.deps():
        return mk_pow(A, kat)
    d = shift_dir(A, kat, katom)
    if d:
        return mk_rprod(d[1], d[1] + kat - 1) if d[0] == '+' else mk_rprod(d[1] - kat + 1, d[1])
    s = single_atom(A)
    if s is not None and A.t[((s, 1),)] == 1 and ATOMS[s][0] == 'el':
        seq, idx = ATOMS[s][1][0], ATOMS[s][1][1]
        d = shift_dir(idx, kat, katom)
        if d:
            return mk_prod(seq, d[1], d[1] + kat) if d[0] == '+' else mk_prod(seq, d[1] - kat + 1, d[1] + 1)
    if len(A.t) == 1:
        (m, c), = A.t.items()
        r = mk_pow(P.c(c), kat)
        for a, e in m:
            f = prod_form(P.a(a), kat, katom)
            if f is None:
                return None
            r = r * f ** e
        return r
    return None


def el_of(p):
    s = single_atom(p)
    if s is not None and p.t.get(((s, 1),)) == 1 and ATOMS[s][0] == 'el':
        return ATOMS[s][1][0], ATOMS[s][1][1]
    return None


def sum_form(B, kat, katom):
    """closed form of sum_{j<k} B(j), or None"""
    if katom not in B.deps():
        return B * kat
    # polynomial in k of degree 1
    r = lin_in(B, katom)
    if r and katom not in r[0].deps() and katom not in r[1].deps():
        return r[1] * kat + r[0] * mk_fdiv(kat * kat - kat, P.c(2))
    # v[k] * prod(m, lo, k)
    if len(B.t) == 1:
        (m, c), = B.t.items()
        if c == 1 and len(m) == 2 and all(e == 1 for _, e in m):
            for x, y in ((m[0][0], m[1][0]), (m[1][0], m[0][0])):
                kx, ax = ATOMS[x]
                ky, ay = ATOMS[y]
                if kx == 'el' and ky == 'prod':
                    if ax[1] == ay[2] and katom not in ay[1].deps():
                        d = shift_dir(ax[1], kat, katom)
                        if d and d[0] == '+':
                            return mk_horner(ax[0], ay[0], ay[1], ax[1]) - mk_horner(ax[0], ay[0], ay[1], d[1])
    return None


def solve_int(p, x0, h, kat, katom):
    """closed form of x' = p(x) with p linear in atom h, or None"""
    r = lin_in(p, h)
    if r is None:
        return None
    A, B = r
    if h in B.deps() or h in A.deps():
        return None
    if not B.t:
        f = prod_form(A, kat, katom) if A.t else None
        return None if f is None else x0 * f
    if A == P.c(1):
        f = sum_form(B, kat, katom)
        return None if f is None else x0 + f
    ea, eb = el_of(A), el_of(B)
    if ea and eb and ea[1] == eb[1]:
        d = shift_dir(ea[1], kat, katom)
        if d and d[0] == '-':
            lo, hi = d[1] - kat + 1, d[1] + 1
            return mk_horner(eb[0], ea[0], lo, hi) + mk_prod(ea[0], lo, hi) * x0
    if A.t and katom not in A.deps() and katom not in B.deps():
        c = A.const()
        if c is not None and c == 2:
            return x0 * mk_pow(A, kat) + B * (mk_pow(A, kat) - 1)
    return None


def solve_all(I, S0, leaves, hbacks, kat, katom, forbidden):
    ints_ = [l for l in leaves if l.kind == 'int']
    for l in ints_:
        l.closed, l.mods = None, ()
    seqs = [l for l in leaves if l.kind == 'seq']
    if not hbacks:
        return
    tr = {}
    for l in ints_:
        vs = []
        for b in hbacks:
            try:
                v = getv(b.st.cells[l.cell], l.path)
                vs.append(b.st.pc.norm(v.p) if isinstance(v, Int) else None)
            except Exception:
                vs.append(None)
        tr[l.key()] = (vs[0] if vs else None, vs, hbacks)
    raw = {}
    for l in ints_:
        try:
            v = getv(hbacks[0].st.cells[l.cell], l.path)
            raw[l.key()] = v.p if isinstance(v, Int) else None
        except Exception:
            raw[l.key()] = None
    hatom = {l.key(): single_atom(l.h) for l in ints_}
    known = {}
    # sequence lengths
    for l in seqs:
        n0 = I.seq_len(l.v0)
        l.closed = None
        ts = set()
        for b in hbacks:
            try:
                v = getv(b.st.cells[l.cell], l.path)
            except Exception:
                v = None
            n = I.seq_len(v) if v is not None else None
            ts.add(None if n is None else (n - l.h))
        if len(ts) == 1:
            t = ts.pop()
            if t is not None and t.is_const():
                l.closed = n0 + t * kat
                l.step = t.const()
                known[single_atom(l.h)] = l.closed
        if l.closed is None:
            l.kind = 'top'

    def take(l, cf, mods=()):
        if (l.key(), repr(cf)) in forbidden:
            return False
        l.closed, l.mods = cf, tuple(mods)
        z = P.c(0)
        for mm in mods:
            if l.sky is None:
                l.sky = {}
            if mm not in l.sky:
                NEXT_SK[0] += 1
                l.sky[mm] = NEXT_SK[0]
            z = z + mm * P.a(atom('sk', l.sky[mm], 'B', *(S0.ctx + (kat,))))
        l.full = cf + z
        known[hatom[l.key()]] = l.full
        return True

    progress = True
    while progress:
        progress = False
        for l in ints_:
            if l.closed is not None:
                continue
            cands = []
            for p in (raw[l.key()], tr[l.key()][0]):
                if p is None:
                    continue
                q = subst(p, known, deep=True)
                cands.append((q, ()))
                q2, mods = drop_quot(q)
                if mods:
                    cands.append((q2, mods))
                # drop skolem multiples coming from other leaves' moduli
            h = hatom[l.key()]
            hs = {hatom[o.key()] for o in ints_ if o is not l and o.closed is None}
            for q, mods in cands:
                if q.deps() & hs:
                    continue
                if h in q.deps():
                    cf = solve_int(q, getv_p(l.v0), h, kat, katom)
                else:
                    cf = subst(q, {katom: kat - 1}, deep=True)
                    if not S0.pc.eq(subst(cf, {katom: P.c(0)}, deep=True) - getv_p(l.v0)):
                        cf = None
                if cf is None and mods == ():
                    continue
                if cf is not None and not mods and not S0.pc.eq(subst(cf, {katom: P.c(0)}, deep=True) - getv_p(l.v0)):
                    cf = None
                if cf is not None and take(l, cf, mods):
                    progress = True
                    break
        if progress:
            continue
        # Fibonacci pairs
        un = [l for l in ints_ if l.closed is None]
        for a in un:
            for b in un:
                if a is b or a.closed is not None or b.closed is not None:
                    continue
                x, y = a.h, b.h
                pa, pb = raw[a.key()], raw[b.key()]
                if pa is None or pb is None:
                    continue
                pa, pb = subst(pa, known, deep=True), subst(pb, known, deep=True)
                qa, ma = drop_quot(pa)
                qb, mb = drop_quot(pb)
                F = mk_fib
                x0, y0 = getv_p(a.v0), getv_p(b.v0)
                cf = None
                if qa == x + y and qb == x:
                    cf = (x0 * F(kat + 1) + y0 * F(kat), x0 * F(kat) + y0 * F(kat - 1))
                elif qa == y and qb == x + y:
                    cf = (x0 * F(kat - 1) + y0 * F(kat), x0 * F(kat) + y0 * F(kat + 1))
                elif qa == x + y and qb == x + 2 * y:
                    cf = (x0 * F(2 * kat - 1) + y0 * F(2 * kat), x0 * F(2 * kat) + y0 * F(2 * kat + 1))
                if cf and take(a, cf[0], ma) and take(b, cf[1], mb):
                    progress = True
    # pushed elements as functions of the counter
    free = {hatom[o.key()] for o in ints_ if o.closed is None} | {single_atom(o.h) for o in leaves if o.kind == 'table'}
    at = None
    if I.lazy:
        at = S0.pc.copy()
        at.add_ge(kat)
    for l in seqs:
        l.items = None
        if not I.lazy or l.kind != 'seq' or getattr(l, 'step', 0) != 1 or getattr(l, 'no_items', False) or I.sieve.as_lseq(l.v0) is None:
            continue
        got = []
        for b in hbacks:
            v = getv(b.st.cells[l.cell], l.path)
            x = v.tail[0] if isinstance(v, SSeq) and len(v.tail) == 1 else None
            got.append(natural_div(subst(b.st.pc.norm(x.p), known, deep=True), at) if isinstance(x, Int) else None)
        if got and got[0] is not None and all(g == got[0] for g in got) and not (got[0].deps() & free):
            l.items = got[0]


def natural_div(p, pc):
    """truncating quotients of naturals as flooring ones"""
    for a in p.atoms():
        k, x = ATOMS[a]
        if k == 'tdiv' and pc.ge(x[0]) and pc.ge(x[1] - 1):
            p = subst(p, {a: mk_fdiv(x[0], x[1])})
    return p


def getv_p(v):
    return v.p


def place_closed(I, K, lf, kat, ctx):
    v0 = lf.v0
    cell = K.cells[lf.cell]
    if lf.kind == 'int':
        if lf.closed is not None:
            p = lf.full
        else:
            if lf.sky is None or not isinstance(lf.sky, int):
                NEXT_SK[0] += 1
                lf.sky = NEXT_SK[0]
            p = P.a(atom('sk', lf.sky, v0.ty, *ctx))
        lo, hi = ty_range(v0.ty)
        if v0.ty != ('i', 128):
            if lo is not None:
                K.pc.add_ge(p - lo)
            if hi is not None:
                K.pc.add_ge(P.c(hi) - p)
        new = Int(p, v0.ty)
    elif lf.kind == 'bool':
        if lf.sky is None:
            NEXT_SK[0] += 1
            lf.sky = NEXT_SK[0]
        new = Bool(('fl', P.a(atom('sk', lf.sky, ('u', 1), *ctx)), True))
    elif lf.kind == 'table':
        new = lf.forms[0][1](kat)
    elif lf.kind == 'seq' and lf.items is not None:
        new = described(I, lf, kat, kat)
        K.pc.add_ge(kat)
    elif lf.kind == 'seq':
        if getattr(lf, 'len_only', False):
            new = SSeq('%s@%r' % (lf.base, kat), 0, lf.closed, lf.shape)
        else:
            new = SSeq(lf.base, 0, lf.closed, lf.shape)
            if isinstance(v0, Seq):
                for i, x in enumerate(v0.vs):
                    for f in elem_facts(I, lf.base, P.c(i), x, lf.shape):
                        K.pc.add_eq0(f)
            elif isinstance(v0, SSeq):
                d = v0.n.const()
        K.pc.add_ge(lf.closed)
    else:
        new = Top('changed in loop')
    K.cells[lf.cell] = setv(cell, lf.path, new)


def described(I, lf, kat, n):
    """the list after n iterations"""
    v0 = I.sieve.as_lseq(lf.v0)
    (m, _), = kat.t.items()
    j = I.sieve.new_pos()
    return LSeq(v0.segs + ((j, n, subst(lf.items, {m[0][0]: P.a(j)}, deep=True)),), v0.ty)


def candidate_invariants(I, S0, leaves):
    """order facts about leaves without closed form, true on entry"""
    out = []
    ints_ = [l for l in leaves if l.kind == 'int']
    un = [l for l in ints_ if l.closed is None]
    for l in un:
        x0 = l.v0.p
        for c in (0, 1, 2):
            if S0.pc.ge(x0 - c):
                out.append((lambda vals, l=l, c=c: vals[l.key()] - c))
        out.append(lambda vals, l=l, x0=x0: x0 - vals[l.key()])
        out.append(lambda vals, l=l, x0=x0: vals[l.key()] - x0)
        for o in ints_:
            if o is not l:
                for c in (0, 1):
                    if S0.pc.ge(o.v0.p - x0 - c):
                        out.append(lambda vals, l=l, o=o, c=c: vals[o.key()] - vals[l.key()] - c)
                    if o.closed is not None and S0.pc.ge(x0 - o.v0.p - c):
                        out.append(lambda vals, l=l, o=o, c=c: vals[l.key()] - vals[o.key()] - c)
    return out


def leaf_vals(st, leaves):
    vals = {}
    for l in leaves:
        if l.kind == 'int':
            try:
                v = getv(st.cells[l.cell], l.path)
                vals[l.key()] = v.p
            except Exception:
                pass
    return vals


def not_equal_bounds(S0, K, outs, kat, katom):
    """candidates from tests counter != bound of completed iterations: a
    counter that starts on one side of the bound and moves in steps of one
    stays on that side"""
    known = {katom}
    for v in S0.cells.values():
        for a in val_atoms(v):
            known |= {a} | _all_atoms(a)
    for g in K.pc.ges:
        known |= g.atoms()
    out = []
    for o in outs:
        if o.kind != 'back':
            continue
        for f in dict.fromkeys(o.st.pc.trace[len(K.pc.trace):]):
            if f[0] != 'ne':
                continue
            g = o.st.pc.norm(f[1])
            if katom not in g.deps() or not g.atoms() <= known:
                continue
            for h in (g, -g):
                if h not in out and S0.pc.ge(subst(h, {katom: P.c(0)}, deep=True)):
                    out.append(h)
    return [lambda vals, h=h: subst(h, {katom: vals['k']}, deep=True) for h in out]


def houdini(I, S0, K, leaves, invs, step, kat, katom):
    tried = False
    while True:
        K2 = K.copy()
        vals = leaf_vals(K2, leaves)
        vals['k'] = kat
        for f in invs:
            K2.pc.add_ge(f(vals))
        outs = step(K2.copy())
        if not tried:
            tried = True
            more = not_equal_bounds(S0, K, outs, kat, katom)
            if more:
                invs = invs + more
                continue
        if not invs:
            return K2, invs, outs
        keep = []
        for f in invs:
            good = True
            for o in outs:
                if o.kind != 'back':
                    continue
                try:
                    vals = leaf_vals(o.st, leaves)
                    vals['k'] = kat + 1
                    if not o.st.pc.ge(f(vals)):
                        good = False
                except KeyError:
                    good = False
                if not good:
                    break
            if good:
                keep.append(f)
        if len(keep) == len(invs):
            return K2, invs, outs
        invs = keep


def step_ok(I, lf, st, kat, katom):
    """the closed form at k+1 describes the value after one more iteration"""
    try:
        v = getv(st.cells[lf.cell], lf.path)
    except Exception:
        return False
    if lf.kind == 'int':
        if not isinstance(v, Int):
            raise_giveup('integer loop variable becomes %r' % (v,))
        if lf.closed is None:
            return True
        nxt = subst(lf.closed, {katom: kat + 1}, deep=True)
        return st.pc.eq(v.p - nxt, list(lf.mods))
    if lf.kind == 'bool':
        return isinstance(v, Bool)
    if lf.kind == 'table':
        return isinstance(v, GMap) and I.sieve.eq_tables(I, st, v, lf.forms[0][1](kat + 1))
    if lf.kind == 'seq' and lf.items is not None:
        return isinstance(v, LSeq) and I.sieve.eq_lists(st.pc, v, described(I, lf, kat, kat + 1))
    if lf.kind == 'seq':
        n = I.seq_len(v)
        if n is None:
            return False
        nxt = subst(lf.closed, {katom: kat + 1}, deep=True)
        if not st.pc.eq(n - nxt):
            return False
        if getattr(lf, 'len_only', False):
            return isinstance(v, SSeq)
        if not (isinstance(v, SSeq) and v.base == lf.base and not v.off.t):
            return False
        return True
    return True


def fold_leaf(I, lf, B, K, kat, katom):
    """replace the leaf in the state after the iteration by its closed form at
    k+1; facts gained about sequence elements"""
    facts = []
    v = getv(B.cells[lf.cell], lf.path)
    if lf.kind == 'int' and lf.closed is not None:
        new = Int(subst(lf.full, {katom: kat + 1}, deep=True), lf.v0.ty)
        B.cells[lf.cell] = setv(B.cells[lf.cell], lf.path, new)
    elif lf.kind == 'table':
        B.cells[lf.cell] = setv(B.cells[lf.cell], lf.path, lf.forms[0][1](kat + 1))
    elif lf.kind == 'seq' and lf.items is not None:
        B.cells[lf.cell] = setv(B.cells[lf.cell], lf.path, described(I, lf, kat, kat + 1))
    elif lf.kind == 'seq' and isinstance(v, SSeq) and not getattr(lf, 'len_only', False):
        for i, x in enumerate(v.tail):
            for f in elem_facts(I, lf.base, v.n + i, x, lf.shape):
                facts.append(('eq', f))
        new = SSeq(lf.base, 0, subst(lf.closed, {katom: kat + 1}, deep=True), lf.shape)
        B.cells[lf.cell] = setv(B.cells[lf.cell], lf.path, new)
    return facts


# ------------------------------------------------------------ recursion
class Rel:
    """relation key -> value of an abstract map"""

    def __init__(self, name, f, vty):
        self.name, self.f, self.vty = name, f, vty

    def __call__(self, k):
        return self.f(k)

    def __repr__(self):
        return self.name


FUNS = [('fib(n)', lambda n: mk_fib(n)), ('fib(n+1)', lambda n: mk_fib(n + 1)), ('fib(n-1)', lambda n: mk_fib(n - 1)),
        ('fib(n+2)', lambda n: mk_fib(n + 2)), ('n!', lambda n: mk_rprod(P.c(1), n)),
        ('(n-1)!', lambda n: mk_rprod(P.c(1), n - 1))]


class Bottom:
    """summary under construction: recursive calls do not return"""

    def apply(self, I, args, st, span):
        return []


class Summary:
    def __init__(self, inst, intpos, mappos, ret, known, rel, npar):
        self.inst, self.intpos, self.mappos, self.ret, self.known, self.rel = inst, intpos, mappos, ret, known, rel
        self.calls = []
        self.pre_broken = None

    def apply(self, I, args, st, span):
        ps = []
        for i in self.intpos:
            v = I.D(st, args[i])
            if not isinstance(v, Int):
                self.pre_broken = 'argument %d of the recursive call is not an integer' % i
                return []
            ps.append(st.pc.norm(v.p))
        if self.mappos is not None:
            r = args[self.mappos]
            mp = I.D(st, r)
            if not isinstance(r, Ref) or not isinstance(mp, Map):
                self.pre_broken = 'memo table argument is %r' % (mp,)
                return []
            for k, v in mp.known:
                x = I.D(st, v)
                if not (isinstance(x, Int) and st.pc.eq(x.p - self.rel(k))):
                    self.pre_broken = 'memo table entry %s -> %r breaks %s' % (k, x, self.rel)
                    return []
            have = {k for k, _ in mp.known}
            if not set(self.known) <= have:
                self.pre_broken = 'memo table lacks an initial entry'
                return []
            I.write(st, r.cell, r.path, Map(mp.known, self.rel))
        self.calls.append((ps, st.pc.copy(), span))
        return [_ret(st, self.ret(ps))]


def _ret(st, v):
    import interp
    return interp.Outcome(st, 'ret', v)


def ret_shape(I, t):
    T = I.P.types[t]
    k = I.P.ik(t)
    if k is not None:
        return ('int', k)
    if T['k'] == 'tuple' and T['el'] and all(I.P.ik(x) is not None for x in T['el']):
        return ('tup', [I.P.ik(x) for x in T['el']])
    return None


def map_value(I, t):
    """the integer kind of the values of a map (or reference to one)"""
    T = I.P.types[t]
    while T['k'] in ('ref', 'ptr'):
        T = I.P.types[T['el']]
    if T['k'] == 'adt' and T['adt'].split('::')[-1] in ('BTreeMap', 'HashMap') and len(T.get('args', ())) >= 2:
        return I.P.ik(T['args'][1])
    return None


def recursion(I, inst, args, st, span):
    prog = I.P
    body = prog.bodies[inst]['body']
    name = prog.bodies[inst]['name']
    ints_, maps, others = [], [], []
    for i in range(body['argc']):
        v = I.D(st, args[i])
        if isinstance(v, Int):
            ints_.append(i)
        elif isinstance(v, Map) and isinstance(args[i], Ref):
            maps.append(i)
        else:
            others.append(i)
    sh = ret_shape(I, body['locals'][0])
    fail = None
    if sh is None or len(maps) > 1 or not ints_:
        fail = 'recursive function %s has no summarisable signature' % name
    if fail is None:
        known = []
        if maps:
            mp = I.D(st, args[maps[0]])
            known = [(k, v) for k, v in mp.known]
            if not all(k.const() is not None and isinstance(I.D(st, v), Int) for k, v in known) or not known and map_value(I, body['locals'][maps[0] + 1]) is None:
                fail = 'memo table of %s has no constant initial entries' % name
    if fail is None:
        fail = 'no verified summary for recursive function %s' % name
        for sm in candidates(I, inst, body, ints_, maps[0] if maps else None, sh, known, st, args):
            why = verify(I, sm, inst, body, args, st, sh)
            if why is None:
                I.summaries[inst] = sm
                I.analysed.add(inst)
                return sm.apply(I, args, st, span) or [_ret(st, I.havoc_ty(body['locals'][0], st, 'summary precondition'))]
            I.last_fail = (sm, why)
    I.note(fail)
    I.rank_ok[inst] = (False, fail)
    for a in args:
        if isinstance(a, Ref):
            I.write(st, a.cell, a.path, Top('changed by recursion'))
    return [_ret(st, I.havoc_ty(body['locals'][0], st, fail))]


def generic_args(I, st, body, args, ints_, mappos, known, rel):
    g = []
    ps = []
    for i in range(body['argc']):
        if i in ints_:
            t = body['locals'][i + 1]
            v = I.D(st, args[i])
            NEXT_SK[0] += 1
            x = Int(var('r%d' % NEXT_SK[0], v.ty), v.ty)
            ps.append(x.p)
            a = args[i]
            g.append(VRef(x) if isinstance(a, (VRef, Ref)) else x)
        elif i == mappos:
            g.append(Ref(I.heap(st, Map(known, rel))))
        else:
            g.append(args[i])
    return g, ps


def candidates(I, inst, body, ints_, mappos, sh, known, st, args):
    n = len(ints_)
    k = sh[1] if sh[0] == 'int' else None
    if mappos is not None:
        if sh[0] != 'int':
            return
        vty = I.D(st, known[0][1]).ty if known else map_value(I, body['locals'][mappos + 1])
        for nm, f in FUNS:
            if all(st.pc.eq(I.D(st, v).p - f(a)) for a, v in known):
                rel = Rel(nm, f, vty)
                for j in range(n):
                    yield Summary(inst, ints_, mappos, lambda ps, f=f, j=j: Int(f(ps[j]), k), [a for a, _ in known], rel, n)
        return
    one = []
    for nm, f in FUNS:
        for j in range(n):
            one.append(lambda ps, f=f, j=j: f(ps[j]))
    for i in range(n):
        for j in range(n):
            if i != j:
                one.append(lambda ps, i=i, j=j: mk_rprod(ps[i], ps[j]))
                one.append(lambda ps, i=i, j=j: mk_rprod(ps[i], ps[j] - 1))
                one.append(lambda ps, i=i, j=j: ps[i] * mk_rprod(P.c(1), ps[j]))
                one.append(lambda ps, i=i, j=j: mk_pow(ps[i], ps[j]))
                one.append(lambda ps, i=i, j=j: mk_gcd(ps[i], ps[j]))
                for l in range(n):
                    if l not in (i, j):
                        one.append(lambda ps, i=i, j=j, l=l: ps[i] * mk_fib(ps[l] - 1) + ps[j] * mk_fib(ps[l]))
                        one.append(lambda ps, i=i, j=j, l=l: ps[i] * mk_fib(ps[l]) + ps[j] * mk_fib(ps[l] + 1))
                        one.append(lambda ps, i=i, j=j, l=l: ps[l] * mk_pow(ps[i], ps[j]))
    # filter on the non-recursive outcomes
    I.summaries[inst] = Bottom()
    s2 = st.copy()
    s2.pc = PC()
    g, ps = generic_args(I, s2, body, args, ints_, None, (), None)
    try:
        base = [o for o in I.call_body(inst, g, s2) if o.kind == 'ret']
    finally:
        del I.summaries[inst]
    comps = [None] if sh[0] == 'int' else list(range(len(sh[1])))
    lists = []
    for c in comps:
        okc = []
        for f in one:
            good = True
            for o in base:
                v = I.D(o.st, o.val)
                if c is not None:
                    v = I.D(o.st, v.fs[c]) if isinstance(v, Tup) else None
                if not isinstance(v, Int) or not o.st.pc.eq(v.p - f(ps)):
                    good = False
                    break
            if good:
                okc.append(f)
        lists.append(okc)
    if not base:
        return
    if sh[0] == 'int':
        for f in lists[0]:
            yield Summary(inst, ints_, None, lambda ps, f=f: Int(f(ps), k), [], None, n)
    else:
        from itertools import product, islice
        for fs in islice(product(*lists), 60):
            yield Summary(inst, ints_, None,
                          lambda ps, fs=fs: Tup([Int(f(ps), kk) for f, kk in zip(fs, sh[1])]), [], None, n)


def verify(I, sm, inst, body, args, st, sh):
    """None when the summary is inductive and the recursion is well founded"""
    s2 = st.copy()
    s2.pc = PC()
    known = []
    if sm.mappos is not None:
        known = [(k, Int(sm.rel(k), sm.rel.vty)) for k in sm.known]
    g, ps = generic_args(I, s2, body, args, sm.intpos, sm.mappos, known, sm.rel)
    I.summaries[inst] = sm
    try:
        outs = I.call_body(inst, g, s2)
    finally:
        del I.summaries[inst]
    if sm.pre_broken:
        return sm.pre_broken
    want = sm.ret(ps)
    for o in outs:
        if o.kind != 'ret':
            continue
        v = I.D(o.st, o.val)
        pairs = [(v, want)] if sh[0] == 'int' else (list(zip([I.D(o.st, x) for x in v.fs], want.fs)) if isinstance(v, Tup) else [(None, want)])
        for x, w in pairs:
            if not isinstance(x, Int) or not o.st.pc.eq(x.p - w.p):
                return 'a path returns %r, not %r' % (x, w)
        if sm.mappos is not None:
            mp = I.D(o.st, g[sm.mappos])
            if not isinstance(mp, Map) or mp.rel is None or not set(sm.known) <= {k for k, _ in mp.known}:
                return 'the memo table invariant is not kept: %r' % (mp,)
    sm.panics = [o for o in outs if o.kind == 'panic']
    # well-foundedness
    calls = [c for c in sm.calls]
    sm.calls = []
    rank = None
    for j in range(len(ps)):
        if all(pc.ge(c[j]) and pc.ge(ps[j] - 1 - c[j]) for c, pc, _ in calls):
            half = all(pc.ge(ps[j] + 2 - 2 * c[j]) for c, pc, _ in calls)
            rank = (True, 'argument %d decreases' % sm.intpos[j], half, len(calls))
            break
        # hi - lo style
    if rank is None:
        for i in range(len(ps)):
            for j in range(len(ps)):
                if i != j and all(pc.ge(c[j] - c[i]) and pc.ge((ps[j] - ps[i]) - 1 - (c[j] - c[i])) for c, pc, _ in calls):
                    rank = (True, 'distance of arguments %d and %d decreases' % (sm.intpos[i], sm.intpos[j]), False, len(calls))
    I.rank_ok[inst] = rank or (False, 'no decreasing argument')
    if rank is None:
        return 'recursion has no decreasing argument'
    return None
