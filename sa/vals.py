"""Abstract values and analysis state."""
from terms import *


class Val:
    __slots__ = ()


class Int(Val):
    __slots__ = ('p', 'ty')

    def __init__(self, p, ty):
        self.p = lift(p)
        self.ty = ty

    def __repr__(self):
        return '%r' % (self.p,)


class Bool(Val):
    __slots__ = ('f',)

    def __init__(self, f):
        if f is True or f is False:
            f = ('c', f)
        self.f = f

    def __repr__(self):
        return 'Bool%r' % (self.f,)


class Adt(Val):
    __slots__ = ('name', 'v', 'vn', 'fs')

    def __init__(self, name, v, vn, fs):
        self.name, self.v, self.vn, self.fs = name, v, vn, tuple(fs)

    def __repr__(self):
        return '%s%s' % (self.vn or self.name, list(self.fs) if self.fs else '')


class Tup(Val):
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = tuple(fs)

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.fs))


class Clo(Val):
    __slots__ = ('inst', 'fs', 'dn')

    def __init__(self, inst, fs, dn=''):
        self.inst, self.fs, self.dn = inst, tuple(fs), dn

    def __repr__(self):
        return 'closure(%s)' % self.dn


class Fn(Val):
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty           # fndef type description


class Str(Val):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s             # python str or None (unknown)

    def __repr__(self):
        return 'Str(%r)' % (self.s,)


class Ref(Val):                # mutable reference (or address): a place
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return 'Ref(%s,%s)' % (self.cell, self.path)


class VRef(Val):               # shared reference: a snapshot
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '&%r' % (self.v,)


class Bx(Val):                 # Box
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell


class Seq(Val):                # concrete sequence (array, Vec or slice)
    __slots__ = ('vs',)

    def __init__(self, vs):
        self.vs = tuple(vs)

    def __repr__(self):
        return 'Seq[%s]' % ', '.join(map(repr, self.vs[:8]))


class SSeq(Val):
    """symbolic sequence: elements base[off .. off+n) followed by `tail`"""
    __slots__ = ('base', 'off', 'n', 'shape', 'tail')

    def __init__(self, base, off, n, shape, tail=()):
        self.base, self.off, self.n, self.shape, self.tail = base, lift(off), lift(n), shape, tuple(tail)

    def __repr__(self):
        return 'SSeq(%s,off=%s,n=%s%s)' % (self.base, self.off, self.n, ',tail=%r' % (self.tail,) if self.tail else '')


class It(Val):
    """iterator over logical positions lo..hi of an accessor"""
    __slots__ = ('lo', 'hi', 'acc')

    def __init__(self, lo, hi, acc):
        self.lo, self.hi, self.acc = lift(lo), (None if hi is None else lift(hi)), acc

    def __repr__(self):
        return 'It(%s..%s,%s)' % (self.lo, self.hi, self.acc)


class Map(Val):
    """ordered/hash map or set.  `known`: ((key poly, value), ...) latest first
    wins; `rel`: None when exactly the known entries are present, else a
    relation (name, kty, vty) every entry satisfies"""
    __slots__ = ('known', 'rel')

    def __init__(self, known=(), rel=None):
        self.known, self.rel = tuple(known), rel

    def __repr__(self):
        return 'Map(%d known, %s)' % (len(self.known), self.rel)


class Top(Val):
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why


UNIT = Tup(())


def some(v):
    return Adt('std::option::Option', 1, 'Some', (v,))


NONE = Adt('std::option::Option', 0, 'None', ())


def ok(v):
    return Adt('std::result::Result', 0, 'Ok', (v,))


def err(v):
    return Adt('std::result::Result', 1, 'Err', (v,))


ORD = {-1: Adt('std::cmp::Ordering', 0, 'Less', ()), 0: Adt('std::cmp::Ordering', 1, 'Equal', ()),
       1: Adt('std::cmp::Ordering', 2, 'Greater', ())}


class State:
    __slots__ = ('cells', 'pc', 'ctx', 'stack')

    def __init__(self, cells=None, pc=None, ctx=(), stack=()):
        self.cells = cells if cells is not None else {}
        self.pc = pc if pc is not None else PC()
        self.ctx = ctx
        self.stack = stack

    def copy(self):
        return State(dict(self.cells), self.pc.copy(), self.ctx, self.stack)

    def sk(self, ty):
        return sk(ty, *self.ctx)


# ------------------------------------------------------------ bool formulas
def f_not(f):
    k = f[0]
    if k == 'c':
        return ('c', not f[1])
    if k == 'eq':
        return ('ne', f[1])
    if k == 'ne':
        return ('eq', f[1])
    if k == 'ge':
        return ('ge', -f[1] - 1)
    if k == 'and':
        return ('or', [f_not(x) for x in f[1]])
    if k == 'or':
        return ('and', [f_not(x) for x in f[1]])
    if k == 'fl':
        return ('fl', f[1], not f[2])
    return f


def f_eq(p):
    c = p.const()
    return ('c', c == 0) if c is not None else ('eq', p)


def f_ge(p):
    c = p.const()
    return ('c', c >= 0) if c is not None else ('ge', p)


def f_and(*fs):
    fs = [f for f in fs if f != ('c', True)]
    if any(f == ('c', False) for f in fs):
        return ('c', False)
    return fs[0] if len(fs) == 1 else (('and', fs) if fs else ('c', True))


def f_or(*fs):
    return f_not(f_and(*[f_not(f) for f in fs]))


def assume(pc, f):
    """list of path conditions refining pc by f (disjoint, covering)"""
    k = f[0]
    if k == 'c':
        return [pc] if f[1] else []
    if k == 'top':
        return [pc.copy()]
    if k == 'fl':
        b = lift(f[1])
        return assume(pc, ('eq', b - 1) if f[2] else ('eq', b))
    try:
        if k == 'ge':
            q = pc.copy()
            q.add_ge(f[1])
            return [q]
        if k == 'eq':
            q = pc.copy()
            q.add_eq0(f[1])
            return [q]
        if k == 'ne':
            q = pc.copy()
            q.add_ne0(f[1])
            return [q]
    except Infeasible:
        return []
    if k == 'and':
        cur = [pc]
        for g in f[1]:
            cur = [r for q in cur for r in assume(q, g)]
        return cur
    if k == 'or':
        out = []
        cur = [pc]
        for g in f[1]:
            nxt = []
            for q in cur:
                out += assume(q, g)
                nxt += assume(q, f_not(g))
            cur = nxt
        return out
    raise Exception('formula %r' % (f,))


def entails(pc, f):
    return not assume(pc, f_not(f))


class LSeq(Val):
    """lazily described sequence: consecutive segments (position atom J, length,
    element polynomial in J), elements of integer kind ty"""
    __slots__ = ('segs', 'ty')

    def __init__(self, segs, ty):
        self.segs, self.ty = tuple(segs), ty

    def __repr__(self):
        return 'LSeq[%s]' % '; '.join('%s for %s < %s' % (show(f), show_atom(j), show(n)) for j, n, f in self.segs)

    def len(self):
        return sum((n for _, n, _ in self.segs), P.c(0))


class GMap(Val):
    """map of partial sieve sums: the first `cnt` keys of dom (None: all) are
    present; the entry of the key at position i is phi(key, e + 1) for i < upto
    and phi(key, e) otherwise, where phi(k, e) is the sum modulo 2^64 of the
    integers in 2..k that are prime or have no prime factor <= e"""
    __slots__ = ('dom', 'e', 'upto', 'cnt', 'ty')

    def __init__(self, dom, e, upto=0, cnt=None, ty=('u', 64)):
        self.dom, self.e, self.upto, self.cnt, self.ty = dom, lift(e), lift(upto), cnt if cnt is None else lift(cnt), ty

    def __repr__(self):
        return 'GMap(e=%s,upto=%s,cnt=%s)' % (self.e, self.upto, self.cnt)
