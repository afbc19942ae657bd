"""Transfer functions for library operations, keyed by the type-checked path of
the callee and interpreted on abstract values."""
import re
from vals import *


class NoModel(Exception):
    pass


TABLE = {}


def m(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def R(st, v):
    return [_O(st, 'ret', v)]


def _O(st, kind, val, span=None):
    import interp
    return interp.Outcome(st, kind, val, span)


def pan(st, msg, span):
    import interp
    return interp.Outcome(st, 'panic', msg, span, tuple(st.stack))


INTTY = r'(?:u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)'


def norm_path(p):
    p = re.sub(r"(::)?<'[a-z_]+>", '', p)
    p = re.sub(r'(core|std)::num::<impl %s>' % INTTY, 'int', p)
    p = re.sub(r'core::num::int_macros::<impl %s>' % INTTY, 'int', p)
    p = re.sub(r'^(core|alloc)::', 'std::', p)
    p = re.sub(r'<impl \[T\]>', '[T]', p)
    p = re.sub(r'<impl \[T; N\]>', '[T;N]', p)
    p = re.sub(r'<impl str>', 'str', p)
    p = re.sub(r'::<[^:]*?>(?=::|$)', '', p)
    p = p.replace('std::collections::HashMap', 'map').replace('std::collections::BTreeMap', 'map')
    p = p.replace('std::collections::btree_map::BTreeMap', 'map').replace('std::collections::hash_map::HashMap', 'map')
    p = p.replace('std::collections::BTreeSet', 'set').replace('std::collections::HashSet', 'set')
    p = re.sub(r'map::<[^>]*>', 'map', p)
    return p


_cache = {}


def lookup(F):
    p = F['path']
    r = _cache.get(p, 0)
    if r == 0:
        q = norm_path(p)
        r = TABLE.get(q)
        if r is None:
            q2 = re.sub(r'::<[A-Za-z, ]*>', '', q)
            r = TABLE.get(q2)
        _cache[p] = r
    return r


# ------------------------------------------------------------------ helpers
def ints(I, st, args):
    vs = [I.D(st, a) for a in args]
    if not all(isinstance(v, Int) for v in vs):
        raise NoModel('integer operation on %r' % (vs,))
    return vs


def rk(I, rty, dflt=None):
    if rty is not None:
        k = I.P.ik(rty)
        if k is not None:
            return k
    return dflt


def forked(I, st, f):
    return I.fork(st, f)


def three_way(I, st, a, b):
    out = []
    for f, i in ((f_ge(b - a - 1), -1), (f_eq(a - b), 0), (f_ge(a - b - 1), 1)):
        for s2 in I.fork(st, f):
            out.append((s2, i))
    return out


def fit(I, st, p, k, span, what):
    """arithmetic result p of kind k: panic where it leaves the type"""
    lo, hi = ty_range(k)
    out = []
    good = [('c', True)]
    if lo == 0 and what[:3] in ('add', 'mul', 'pow'):
        good.append(f_ge(p))       # naturals are closed under + * ^
    elif lo is not None:
        for s2 in I.fork(st, f_ge(P.c(lo) - p - 1)):
            out.append(pan(s2, what + (' underflow' if k in ('U',) or k[0] == 'u' else ' overflow'), span))
        good.append(f_ge(p - lo))
    if hi is not None:
        for s2 in I.fork(st, f_ge(p - hi - 1)):
            out.append(pan(s2, what + ' overflow', span))
        good.append(f_ge(P.c(hi) - p))
    for s2 in I.fork(st, f_and(*good)):
        out.append(_O(s2, 'ret', Int(p, k)))
    return out


def partition_range(I, st, p, lo, hi):
    """(state, inside?) partition of p in [lo, hi] (None = unbounded)"""
    out = []
    g = []
    if lo is not None:
        for s2 in I.fork(st, f_ge(P.c(lo) - p - 1)):
            out.append((s2, False))
        g.append(f_ge(p - lo))
    if hi is not None:
        for s2 in I.fork(st, f_ge(p - hi - 1)):
            out.append((s2, False))
        g.append(f_ge(P.c(hi) - p))
    for s2 in I.fork(st, f_and(*g) if g else ('c', True)):
        out.append((s2, True))
    return out


def arith(op, a, b):
    return a + b if op == 'add' else a - b if op == 'sub' else a * b


# --------------------------------------------------------------- arithmetic
def _binary(op, what):
    def f(I, st, args, F, rty, span):
        a, b = ints(I, st, args)
        k = rk(I, rty, a.ty)
        if I.lazy and op == 'mul':
            I.sieve.product_facts(st, a.p, b.p)
        return fit(I, st, arith(op, a.p, b.p), k, span, what)
    return f


for _o, _w in (('add', 'addition'), ('sub', 'subtraction'), ('mul', 'multiplication')):
    m('std::ops::%s::%s' % (_o.capitalize(), _o))(_binary(_o, _w))


def _assign(op, what):
    def f(I, st, args, F, rty, span):
        r = args[0]
        a, b = ints(I, st, args)
        if not isinstance(r, Ref):
            raise NoModel('assign through %r' % (r,))
        out = []
        for o in fit(I, st, arith(op, a.p, b.p), a.ty, span, what):
            if o.kind == 'ret':
                I.write(o.st, r.cell, r.path, o.val)
                o.val = UNIT
            out.append(o)
        return out
    return f


for _o, _w in (('add', 'addition'), ('sub', 'subtraction'), ('mul', 'multiplication')):
    m('std::ops::%sAssign::%s_assign' % (_o.capitalize(), _o))(_assign(_o, _w))


def divide(I, st, a, b, k, span, want, mode='t'):
    """want: 'q','r','qr'; mode t(runcated) / f(loored) / e(uclidean)"""
    out = []
    for s2 in I.fork(st, f_eq(b)):
        out.append(pan(s2, 'division by zero', span))
    for s2 in I.fork(st, f_not(f_eq(b))):
        sts = [s2]
        if mode == 'e':
            sts = I.fork(s2, f_ge(b)) + I.fork(s2, f_ge(-b - 1))
        for s3 in sts:
            if mode == 't':
                q = I.quot(s3, a, b)
            else:
                A, B = s3.pc.norm(a), s3.pc.norm(b)
                q = mk_fdiv(A, B)
                if mode == 'e' and s3.pc.ge(-B - 1):
                    q = -mk_fdiv(A, -B)
            r = a - b * q
            if want == 'q':
                out += fit(I, s3, q, k, span, 'division')
            elif want == 'r':
                out.append(_O(s3, 'ret', Int(r, k)))
            else:
                out.append(_O(s3, 'ret', Tup([Int(q, k), Int(r, k)])))
    return out


@m('std::ops::Div::div')
def _(I, st, args, F, rty, span):
    a, b = ints(I, st, args)
    return divide(I, st, a.p, b.p, rk(I, rty, a.ty), span, 'q')


@m('std::ops::Rem::rem')
def _(I, st, args, F, rty, span):
    a, b = ints(I, st, args)
    return divide(I, st, a.p, b.p, rk(I, rty, a.ty), span, 'r')


def _divassign(want):
    def f(I, st, args, F, rty, span):
        r = args[0]
        a, b = ints(I, st, args)
        if not isinstance(r, Ref):
            raise NoModel('assign')
        out = divide(I, st, a.p, b.p, a.ty, span, want)
        for o in out:
            if o.kind == 'ret':
                I.write(o.st, r.cell, r.path, o.val)
                o.val = UNIT
        return out
    return f


m('std::ops::DivAssign::div_assign')(_divassign('q'))
m('std::ops::RemAssign::rem_assign')(_divassign('r'))


def _dm(want, mode):
    def f(I, st, args, F, rty, span):
        a, b = ints(I, st, args)
        return divide(I, st, a.p, b.p, a.ty, span, want, mode)
    return f


for _n, _w, _md in (('div_floor', 'q', 'f'), ('mod_floor', 'r', 'f'), ('div_rem', 'qr', 't'), ('div_mod_floor', 'qr', 'f')):
    m('num::Integer::' + _n, 'num::integer::' + _n)(_dm(_w, _md))
for _n, _w in (('div_euclid', 'q'), ('rem_euclid', 'r')):
    m('int::' + _n, 'num::traits::Euclid::' + _n, 'num::Euclid::' + _n)(_dm(_w, 'e'))
m('int::div_floor')(_dm('q', 'f'))
m('num::Integer::div_ceil', 'int::div_ceil', 'num::integer::div_ceil')
@m('num::Integer::div_ceil', 'int::div_ceil', 'num::integer::div_ceil')
def _(I, st, args, F, rty, span):
    a, b = ints(I, st, args)
    out = [pan(s2, 'division by zero', span) for s2 in I.fork(st, f_eq(b.p))]
    for s2 in I.fork(st, f_not(f_eq(b.p))):
        out.append(_O(s2, 'ret', Int(-mk_fdiv(s2.pc.norm(-a.p), s2.pc.norm(b.p)), a.ty)))
    return out


@m('std::ops::Neg::neg')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    k = rk(I, rty, a.ty)
    if k == 'U':
        # -x on an unsigned big integer panics
        return [pan(st, 'negation of an unsigned big integer', span)]
    return fit(I, st, -a.p, k, span, 'negation')


@m('std::ops::Not::not')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    if isinstance(v, Bool):
        return R(st, Bool(f_not(v.f)))
    if isinstance(v, Int) and (v.ty == 'B' or v.ty[0] == 'i'):
        return R(st, Int(-v.p - 1, v.ty))
    raise NoModel('not')


def _bitop(op):
    def f(I, st, args, F, rty, span):
        a, b = (I.D(st, x) for x in args)
        return [_O(s, 'ret', v) for s, v in I.binop(st, op, a, b, None, False)] if not isinstance(a, Int) else _bitint(I, st, op, a, b, rty)
    return f


def _bitint(I, st, op, a, b, rty):
    if not isinstance(b, Int):
        raise NoModel('bit operation')
    k = rk(I, rty, a.ty)
    if op in ('Shr', 'Shl'):
        c = st.pc.norm(b.p).const()
        if c is not None and 0 <= c < 4096:
            if op == 'Shr':
                return R(st, Int(mk_fdiv(st.pc.norm(a.p), P.c(1 << c)), k))
            if k in ('B', 'U'):
                return R(st, Int(a.p * (1 << c), k))
        elif op == 'Shl' and k in ('B', 'U'):
            return R(st, Int(a.p * mk_pow(P.c(2), b.p), k))
        raise NoModel('shift by a variable amount')
    if op == 'BitAnd':
        for x, y in ((a.p, b.p), (b.p, a.p)):
            c = st.pc.norm(y).const()
            if c is not None and c >= 0 and (c & (c + 1)) == 0:
                x = st.pc.norm(x)
                return R(st, Int(x - (c + 1) * mk_fdiv(x, P.c(c + 1)), k))
    raise NoModel('bit operation')


for _t, _n, _b in (('BitAnd', 'bitand', 'BitAnd'), ('BitOr', 'bitor', 'BitOr'), ('BitXor', 'bitxor', 'BitXor'),
                   ('Shl', 'shl', 'Shl'), ('Shr', 'shr', 'Shr')):
    m('std::ops::%s::%s' % (_t, _n))(_bitop(_b))


def _bitassign(op):
    def f(I, st, args, F, rty, span):
        r = args[0]
        a, b = (I.D(st, x) for x in args)
        if not isinstance(r, Ref):
            raise NoModel('assign')
        out = []
        if isinstance(a, Int):
            outs = _bitint(I, st, op, a, b, None)
        else:
            outs = [_O(s, 'ret', v) for s, v in I.binop(st, op, a, b, None, False)]
        for o in outs:
            I.write(o.st, r.cell, r.path, o.val)
            o.val = UNIT
            out.append(o)
        return out
    return f


for _t, _n in (('BitAnd', 'bitand'), ('BitOr', 'bitor'), ('BitXor', 'bitxor'), ('Shl', 'shl'), ('Shr', 'shr')):
    m('std::ops::%sAssign::%s_assign' % (_t, _n))(_bitassign(_t))


# checked / wrapping / saturating -----------------------------------------
def _checked(op):
    def f(I, st, args, F, rty, span):
        a, b = ints(I, st, args)
        p = arith(op, a.p, b.p)
        lo, hi = ty_range(a.ty)
        out = []
        for s2, inside in partition_range(I, st, p, lo, hi):
            out.append(_O(s2, 'ret', some(Int(p, a.ty)) if inside else NONE))
        return out
    return f


def _wrapping(op):
    def f(I, st, args, F, rty, span):
        a, b = ints(I, st, args)
        return [_O(s2, 'ret', v) for s2, v in I.wrap(st, arith(op, a.p, b.p), a.ty)]
    return f


def _saturating(op):
    def f(I, st, args, F, rty, span):
        a, b = ints(I, st, args)
        p = arith(op, a.p, b.p)
        lo, hi = ty_range(a.ty)
        out = []
        for s2 in I.fork(st, f_and(f_ge(p - lo), f_ge(P.c(hi) - p))):
            out.append(_O(s2, 'ret', Int(p, a.ty)))
        for s2 in I.fork(st, f_ge(P.c(lo) - p - 1)):
            out.append(_O(s2, 'ret', Int(lo, a.ty)))
        for s2 in I.fork(st, f_ge(p - hi - 1)):
            out.append(_O(s2, 'ret', Int(hi, a.ty)))
        return out
    return f


def _overflowing(op):
    def f(I, st, args, F, rty, span):
        a, b = ints(I, st, args)
        p = arith(op, a.p, b.p)
        lo, hi = ty_range(a.ty)
        return [_O(s2, 'ret', Tup([v, Bool(v.p != p)])) for s2, v in I.wrap(st, p, a.ty)]
    return f


for _o in ('add', 'sub', 'mul'):
    m('int::checked_' + _o, 'num::Checked%s::checked_%s' % (_o.capitalize(), _o),
      'num::traits::Checked%s::checked_%s' % (_o.capitalize(), _o))(_checked(_o))
    m('int::wrapping_' + _o, 'num::traits::Wrapping%s::wrapping_%s' % (_o.capitalize(), _o))(_wrapping(_o))
    m('int::saturating_' + _o)(_saturating(_o))
    m('int::overflowing_' + _o)(_overflowing(_o))
    m('int::unchecked_' + _o)(_wrapping(_o))


def _cdiv(want, mode):
    def f(I, st, args, F, rty, span):
        a, b = ints(I, st, args)
        out = [_O(s2, 'ret', NONE) for s2 in I.fork(st, f_eq(b.p))]
        for s2 in I.fork(st, f_not(f_eq(b.p))):
            for o in divide(I, s2, a.p, b.p, a.ty, span, want, mode):
                if o.kind == 'panic':
                    out.append(_O(o.st, 'ret', NONE))
                else:
                    o.val = some(o.val)
                    out.append(o)
        return out
    return f


m('int::checked_div', 'num::CheckedDiv::checked_div', 'num::BigInt::checked_div', 'num::BigUint::checked_div')(_cdiv('q', 't'))
m('int::checked_rem')(_cdiv('r', 't'))


# --------------------------------------------------------------- num traits
@m('num::Zero::zero', 'num::zero', 'num::traits::zero')
def _(I, st, args, F, rty, span):
    return R(st, Int(0, rk(I, rty, 'B')))


@m('num::One::one', 'num::one', 'num::traits::one')
def _(I, st, args, F, rty, span):
    return R(st, Int(1, rk(I, rty, 'B')))


@m('num::Zero::is_zero')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    return R(st, Bool(f_eq(a.p)))


@m('num::One::is_one')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    return R(st, Bool(f_eq(a.p - 1)))


def _setc(c):
    def f(I, st, args, F, rty, span):
        a, = ints(I, st, args)
        I.write(st, args[0].cell, args[0].path, Int(c, a.ty))
        return R(st, UNIT)
    return f


m('num::Zero::set_zero')(_setc(0))
m('num::One::set_one')(_setc(1))


@m('num::Signed::is_negative', 'int::is_negative')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    return R(st, Bool(f_ge(-a.p - 1)))


@m('num::Signed::is_positive', 'int::is_positive')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    return R(st, Bool(f_ge(a.p - 1)))


@m('num::Signed::abs', 'num::abs', 'num::traits::abs', 'num::BigInt::magnitude', 'num::BigInt::into_magnitude',
   'int::unsigned_abs', 'int::abs')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    ref = rty is not None and I.P.types[rty]['k'] == 'ref'
    k = I.P.ik(I.P.types[rty]['el']) if ref else rk(I, rty, a.ty)
    out = []
    for f, p in ((f_ge(a.p), a.p), (f_ge(-a.p - 1), -a.p)):
        for s2 in I.fork(st, f):
            for o in fit(I, s2, p, k, span, 'absolute value'):
                if ref and o.kind == 'ret':
                    o.val = VRef(o.val)
                out.append(o)
    return out


@m('num::Signed::signum', 'num::signum', 'int::signum')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    return [_O(s2, 'ret', Int(i, a.ty)) for s2, i in three_way(I, st, a.p, P.c(0))]


@m('int::abs_diff')
def _(I, st, args, F, rty, span):
    a, b = ints(I, st, args)
    k = rk(I, rty, a.ty)
    return [_O(s2, 'ret', Int(a.p - b.p if i >= 0 else b.p - a.p, k)) for s2, i in three_way(I, st, a.p, b.p)]


SIGN = 'num::bigint::Sign'


@m('num::BigInt::sign')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    out = []
    for s2, i in three_way(I, st, a.p, P.c(0)):
        out.append(_O(s2, 'ret', Adt(SIGN, i + 1, ['Minus', 'NoSign', 'Plus'][i + 1], ())))
    return out


@m('num::BigInt::into_parts')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    out = []
    for s2, i in three_way(I, st, a.p, P.c(0)):
        out.append(_O(s2, 'ret', Tup([Adt(SIGN, i + 1, ['Minus', 'NoSign', 'Plus'][i + 1], ()), Int(a.p * i, 'U')])))
    return out


@m('num::BigInt::from_biguint')
def _(I, st, args, F, rty, span):
    s, v = I.D(st, args[0]), I.D(st, args[1])
    if not isinstance(s, Adt) or not isinstance(v, Int):
        raise NoModel('from_biguint')
    return R(st, Int({'Plus': v.p, 'Minus': -v.p, 'NoSign': P.c(0)}[s.vn], 'B'))


@m('num::BigInt::to_biguint', 'num::bigint::ToBigUint::to_biguint')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    return [_O(s2, 'ret', some(Int(a.p, 'U')) if ok_ else NONE) for s2, ok_ in partition_range(I, st, a.p, 0, None)]


@m('num::bigint::ToBigInt::to_bigint', 'num::BigUint::to_bigint')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    return R(st, some(Int(a.p, 'B')))


@m('num::Integer::gcd', 'num::integer::gcd')
def _(I, st, args, F, rty, span):
    a, b = ints(I, st, args)
    return R(st, Int(mk_gcd(st.pc.norm(a.p), st.pc.norm(b.p)), a.ty))


EGCD = 'num::integer::ExtendedGcd'


def egcd(I, st, args, rty):
    a, b = ints(I, st, args[:2])
    A, B = st.pc.norm(a.p), st.pc.norm(b.p)
    T = I.P.types[rty]
    vals = {'gcd': Int(mk_gcd(A, B), a.ty), 'x': Int(mk_bez(A, B, 'x'), a.ty), 'y': Int(mk_bez(A, B, 'y'), a.ty)}
    if T['k'] != 'adt':
        raise NoModel('extended_gcd')
    fs = [vals.get(f[0], Top(f[0])) for f in T['variants'][0]['fields']]
    return Adt(T['adt'], 0, None, fs)


@m('num::Integer::extended_gcd', 'num::integer::extended_gcd')
def _(I, st, args, F, rty, span):
    return R(st, egcd(I, st, args, rty))


@m('num::Integer::is_even')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    p = st.pc.norm(a.p)
    return R(st, Bool(f_eq(p - 2 * mk_fdiv(p, P.c(2)))))


@m('num::Integer::is_odd')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    p = st.pc.norm(a.p)
    return R(st, Bool(f_not(f_eq(p - 2 * mk_fdiv(p, P.c(2))))))


@m('num::Integer::is_multiple_of', 'num::Integer::divides', 'int::is_multiple_of')
def _(I, st, args, F, rty, span):
    a, b = ints(I, st, args)
    out = []
    for s2 in I.fork(st, f_eq(b.p)):
        out.append(_O(s2, 'ret', Bool(f_eq(a.p))))
    for s2 in I.fork(st, f_not(f_eq(b.p))):
        A, B = s2.pc.norm(a.p), s2.pc.norm(b.p)
        out.append(_O(s2, 'ret', Bool(f_eq(A - B * mk_fdiv(A, B)))))
    return out


TOP_ = {'u8': ('u', 8), 'u16': ('u', 16), 'u32': ('u', 32), 'u64': ('u', 64), 'u128': ('u', 128), 'usize': ('u', 64),
        'i8': ('i', 8), 'i16': ('i', 16), 'i32': ('i', 32), 'i64': ('i', 64), 'i128': ('i', 128), 'isize': ('i', 64)}


def _to(k):
    def f(I, st, args, F, rty, span):
        a, = ints(I, st, args)
        lo, hi = ty_range(k)
        return [_O(s2, 'ret', some(Int(a.p, k)) if ins else NONE) for s2, ins in partition_range(I, st, a.p, lo, hi)]
    return f


for _n, _k in TOP_.items():
    m('num::ToPrimitive::to_' + _n, 'num::traits::ToPrimitive::to_' + _n)(_to(_k))


def _frm(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    T = I.P.types[rty]
    k = I.P.ik(T['args'][0]) if T['k'] == 'adt' and T['args'] else None
    if k is None:
        raise NoModel('from primitive')
    lo, hi = ty_range(k)
    return [_O(s2, 'ret', some(Int(a.p, k)) if ins else NONE) for s2, ins in partition_range(I, st, a.p, lo, hi)]


for _n in TOP_:
    m('num::FromPrimitive::from_' + _n, 'num::traits::FromPrimitive::from_' + _n)(_frm)


def power(I, st, a, n, k, span):
    """a^n with n >= 0"""
    out = []
    A, N = st.pc.norm(a), st.pc.norm(n)
    if I.lazy and N == P.c(2):
        I.sieve.product_facts(st, A, A)
    if k in ('B', 'U'):
        return R(st, Int(mk_pow(A, N), k))
    return fit(I, st, mk_pow(A, N), k, span, 'power')


@m('num::traits::Pow::pow', 'num::Pow::pow', 'num::BigInt::pow', 'num::BigUint::pow', 'int::pow', 'num::pow', 'num::traits::pow',
   'num::pow::pow', 'num::traits::pow::pow')
def _(I, st, args, F, rty, span):
    a, n = ints(I, st, args)
    return power(I, st, a.p, n.p, rk(I, rty, a.ty), span)


@m('int::checked_pow', 'num::checked_pow')
def _(I, st, args, F, rty, span):
    a, n = ints(I, st, args)
    out = []
    for o in power(I, st, a.p, n.p, a.ty, span):
        if o.kind == 'panic':
            out.append(_O(o.st, 'ret', NONE))
        else:
            o.val = some(o.val)
            out.append(o)
    return out


@m('num::integer::Roots::sqrt', 'num::integer::sqrt', 'num::BigUint::sqrt', 'num::BigInt::sqrt', 'int::isqrt')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    out = []
    for s2 in I.fork(st, f_ge(-a.p - 1)):
        out.append(pan(s2, 'square root of a negative number', span))
    for s2 in I.fork(st, f_ge(a.p)):
        A = s2.pc.norm(a.p)
        c = A.const()
        r = P.c(isqrt(c)) if c is not None else P.a(atom('isqrt', A))
        if I.lazy:
            I.sieve.sqrt_facts(s2, A, r)
        out.append(_O(s2, 'ret', Int(r, a.ty)))
    return out


@m('int::is_power_of_two', 'int::leading_zeros', 'int::trailing_zeros', 'int::count_ones', 'num::BigInt::bits', 'num::BigUint::bits',
   'num::BigUint::trailing_zeros', 'num::BigInt::trailing_zeros')
def _(I, st, args, F, rty, span):
    return R(st, I.havoc_ty(rty, st, F['path']))


@m('num::integer::lcm', 'num::Integer::lcm')
def _(I, st, args, F, rty, span):
    a, b = ints(I, st, args)
    A, B = st.pc.norm(a.p), st.pc.norm(b.p)
    out = []
    for s2 in I.fork(st, f_and(f_eq(A), f_eq(B))):
        out.append(_O(s2, 'ret', Int(0, a.ty)))
    for s2 in I.fork(st, f_or(f_not(f_eq(A)), f_not(f_eq(B)))):
        for s3, i in three_way(I, s2, A * B, P.c(0)):
            out.append(_O(s3, 'ret', Int(A * mk_fdiv(B, mk_gcd(A, B)) * (i if i else 1), a.ty)))
    return out


@m('num::clamp', 'num::traits::clamp', 'std::cmp::Ord::clamp')
def _(I, st, args, F, rty, span):
    a, lo, hi = ints(I, st, args)
    out = []
    for s2 in I.fork(st, f_ge(lo.p - a.p - 1)):
        out.append(_O(s2, 'ret', lo))
    for s2 in I.fork(st, f_ge(a.p - lo.p)):
        for s3 in I.fork(s2, f_ge(a.p - hi.p - 1)):
            out.append(_O(s3, 'ret', hi))
        for s3 in I.fork(s2, f_ge(hi.p - a.p)):
            out.append(_O(s3, 'ret', a))
    return out


# --------------------------------------------------------------- conversions
def copy_of(I, st, v):
    return I.D(st, v) if isinstance(v, (Ref, VRef)) else v


@m('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::clone::Clone::clone_from')
def _(I, st, args, F, rty, span):
    v = args[0]
    # clone takes &self: one dereference
    r = I.deref(st, v) if isinstance(v, (Ref, VRef)) else v
    if isinstance(r, (Int, Bool, Str, Adt, Tup, Seq, SSeq, LSeq, Map, GMap, It, VRef, Clo)):
        if isinstance(r, VRef) and rty is not None and I.P.types[rty]['k'] != 'ref':
            r = I.D(st, r)
        if isinstance(r, (Adt, Tup)) and F.get('inst') in I.P.bodies:
            raise NoModel('local clone')
        return R(st, r)
    raise NoModel('clone of %r' % (r,))


@m('std::convert::From::from', 'std::convert::Into::into', 'num::NumCast::from', 'num::cast')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    k = rk(I, rty)
    if k is not None and isinstance(v, Int):
        lo, hi = ty_range(k)
        slo, shi = ty_range(v.ty)
        okk = (lo is None or (slo is not None and slo >= lo)) and (hi is None or (shi is not None and shi <= hi))
        if not okk:
            raise NoModel('narrowing From')
        return R(st, Int(v.p, k))
    if k is not None and isinstance(v, Bool):
        return [_O(s2, 'ret', Int(b, k)) for b in (1, 0) for s2 in I.fork(st, v.f if b else f_not(v.f))]
    if k is not None and isinstance(v, Str):
        raise NoModel('from str')
    T = I.P.types[rty]
    if T['k'] == 'adt' and T['adt'] in ('std::string::String', 'std::borrow::Cow') and isinstance(v, Str):
        return R(st, v)
    if T['k'] == 'adt' and T['adt'].endswith('::Vec') and isinstance(v, (Seq, SSeq)):
        return R(st, v)
    if T['k'] == 'adt' and ('Map' in T['adt']) and isinstance(v, Seq):
        mp = Map()
        for x in v.vs:
            if not isinstance(x, Tup):
                raise NoModel('map from')
            mp = map_insert(I, st, mp, x.fs[0], x.fs[1])
        return R(st, mp)
    if F.get('inst') in I.P.bodies:
        raise NoModel('local From')
    if T['k'] == 'adt' and isinstance(v, Adt) and v.name == T['adt']:
        return R(st, v)
    raise NoModel('conversion of %r' % (v,))


@m('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def _(I, st, args, F, rty, span):
    a, = ints(I, st, args)
    T = I.P.types[rty]
    k = I.P.ik(T['args'][0])
    if k is None:
        raise NoModel('try_from')
    lo, hi = ty_range(k)
    return [_O(s2, 'ret', ok(Int(a.p, k)) if ins else err(Top('conversion error')))
            for s2, ins in partition_range(I, st, a.p, lo, hi)]


@m('std::str::FromStr::from_str', 'std::str::str::parse', 'str::parse', 'num::Num::from_str_radix')
def _(I, st, args, F, rty, span):
    s = I.D(st, args[0])
    T = I.P.types[rty]
    k = I.P.ik(T['args'][0])
    if k is None or not isinstance(s, Str):
        raise NoModel('from_str')
    radix = 10
    if len(args) > 1:
        r = I.D(st, args[1])
        radix = st.pc.norm(r.p).const() if isinstance(r, Int) else None
    if s.s is not None and radix:
        t = s.s
        body = t[1:] if t[:1] in '+-' and t else t
        if k in ('B', 'U'):
            body = body.replace('_', '') if not body.startswith('_') else body
        try:
            okk = body and not body.startswith(('+', '-')) and '_' not in body
            v = int(body, radix) if okk else None
        except ValueError:
            v = None
        if v is not None:
            if t[0] == '-':
                v = -v
            lo, hi = ty_range(k)
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return R(st, ok(Int(v, k)))
        return R(st, err(Top('parse error')))
    s2 = st.copy()
    return [_O(s2, 'ret', ok(Int(s2.sk(k), k))), _O(st, 'ret', err(Top('parse error')))]


@m('num::BigInt::parse_bytes', 'num::BigUint::parse_bytes')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    r = I.D(st, args[1])
    k = I.P.ik(I.P.types[rty]['args'][0])
    radix = st.pc.norm(r.p).const() if isinstance(r, Int) else None
    if isinstance(v, Str) and v.s is not None:
        bs = v.s
    elif isinstance(v, Seq) and all(isinstance(x, Int) and x.p.const() is not None for x in v.vs):
        bs = bytes(x.p.const() for x in v.vs).decode('latin1')
    else:
        raise NoModel('parse_bytes')
    try:
        return R(st, some(Int(int(bs, radix), k)))
    except ValueError:
        return R(st, NONE)


@m('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow',
   'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::string::String::as_str', 'std::convert::AsMut::as_mut',
   'std::string::String::as_bytes', 'std::str::str::as_bytes', 'str::as_bytes', 'std::hint::black_box', 'std::convert::identity',
   'std::boxed::Box::new_in', 'std::convert::identity::identity')
def _(I, st, args, F, rty, span):
    v = args[0]
    if isinstance(v, (Ref, VRef)):
        x = I.deref(st, v)
        if isinstance(x, Bx):
            return R(st, Ref(x.cell) if isinstance(v, Ref) else VRef(I.deref(st, x)))
        if isinstance(x, VRef):
            return R(st, x)
    return R(st, v)


@m('std::default::Default::default')
def _(I, st, args, F, rty, span):
    k = rk(I, rty)
    if k is not None:
        return R(st, Int(0, k))
    T = I.P.types[rty]
    if T['k'] == 'bool':
        return R(st, Bool(False))
    if T['k'] == 'adt':
        if T['adt'].endswith('::Vec'):
            return R(st, Seq(()))
        if T['adt'].endswith('Map') or T['adt'].endswith('Set'):
            return R(st, Map())
        if T['adt'].endswith('::String'):
            return R(st, Str(''))
    if T['k'] == 'tuple':
        out = []
        for e in T['el']:
            o = TABLE['std::default::Default::default'](I, st, [], {'path': '', 'inst': None}, e, span)
            out.append(o[0].val)
        return R(st, Tup(out))
    raise NoModel('default')


# --------------------------------------------------------------- comparison
def equal(I, st, a, b):
    """formula for structural equality"""
    a, b = I.D(st, a), I.D(st, b)
    if isinstance(a, Int) and isinstance(b, Int):
        return f_eq(a.p - b.p)
    if isinstance(a, Bool) and isinstance(b, Bool):
        return f_or(f_and(a.f, b.f), f_and(f_not(a.f), f_not(b.f)))
    if isinstance(a, Str) and isinstance(b, Str) and a.s is not None and b.s is not None:
        return ('c', a.s == b.s)
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.v != b.v:
            return ('c', False)
        return f_and(*[equal(I, st, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, Tup) and isinstance(b, Tup):
        return f_and(*[equal(I, st, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.vs) != len(b.vs):
            return ('c', False)
        return f_and(*[equal(I, st, x, y) for x, y in zip(a.vs, b.vs)])
    raise NoModel('equality of %r and %r' % (a, b))


@m('std::cmp::PartialEq::eq')
def _(I, st, args, F, rty, span):
    return R(st, Bool(equal(I, st, args[0], args[1])))


@m('std::cmp::PartialEq::ne')
def _(I, st, args, F, rty, span):
    return R(st, Bool(f_not(equal(I, st, args[0], args[1]))))


def _cmp(f):
    def g(I, st, args, F, rty, span):
        a, b = ints(I, st, args)
        return R(st, Bool(f(a.p - b.p)))
    return g


m('std::cmp::PartialOrd::lt')(_cmp(lambda d: f_ge(-d - 1)))
m('std::cmp::PartialOrd::le')(_cmp(lambda d: f_ge(-d)))
m('std::cmp::PartialOrd::gt')(_cmp(lambda d: f_ge(d - 1)))
m('std::cmp::PartialOrd::ge')(_cmp(lambda d: f_ge(d)))


@m('std::cmp::Ord::cmp')
def _(I, st, args, F, rty, span):
    a, b = ints(I, st, args)
    return [_O(s2, 'ret', ORD[i]) for s2, i in three_way(I, st, a.p, b.p)]


@m('std::cmp::PartialOrd::partial_cmp')
def _(I, st, args, F, rty, span):
    a, b = ints(I, st, args)
    return [_O(s2, 'ret', some(ORD[i])) for s2, i in three_way(I, st, a.p, b.p)]


def _mm(mx):
    def f(I, st, args, F, rty, span):
        a, b = ints(I, st, args)
        out = []
        for s2 in I.fork(st, f_ge(a.p - b.p - 1)):
            out.append(_O(s2, 'ret', args[0] if mx else args[1]))
        for s2 in I.fork(st, f_ge(b.p - a.p)):
            out.append(_O(s2, 'ret', args[1] if mx else args[0]))
        return out
    return f


m('std::cmp::Ord::max', 'std::cmp::max')(_mm(True))
m('std::cmp::Ord::min', 'std::cmp::min')(_mm(False))


# --------------------------------------------------------------- iterators
def as_it(I, st, v):
    """iterator value of v (a Range, a sequence reference, an iterator)"""
    if isinstance(v, It):
        return v
    if isinstance(v, (Ref, VRef)):
        x = I.deref(st, v)
        if isinstance(x, (Seq, SSeq, LSeq)):
            n = I.seq_len(x)
            if isinstance(v, Ref) and not isinstance(x, LSeq):
                return It(0, n, ('seqmut', v, n))
            return It(0, n, ('seq', x, 'ref'))
        if isinstance(x, It):
            return x
        if isinstance(x, Map) and isinstance(v, VRef):
            return map_iter(I, x, 'both')
        if isinstance(x, Adt):
            return as_it(I, st, x)
    if isinstance(v, (Seq, SSeq, LSeq)):
        return It(0, I.seq_len(v), ('seq', v, 'own'))
    if isinstance(v, Adt):
        if v.name.endswith('ops::Range') and all(isinstance(f, Int) for f in v.fs):
            return It(v.fs[0].p, v.fs[1].p, ('range', v.fs[0].ty))
        if v.name.endswith('RangeInclusive') and all(isinstance(f, Int) for f in v.fs[:2]):
            return It(v.fs[0].p, v.fs[1].p + 1, ('range', v.fs[0].ty))
        if v.name.endswith('RangeFrom') and isinstance(v.fs[0], Int):
            return It(v.fs[0].p, None, ('range', v.fs[0].ty))
        if v.name.endswith('option::Option'):
            return It(0, len(v.fs), ('seq', Seq(v.fs), 'own'))
    if isinstance(v, Map):
        return map_iter(I, v, 'own')
    raise NoModel('iteration over %r' % (v,))


def map_iter(I, mp, what):
    if mp.rel is not None or not all(k.const() is not None for k, _ in mp.known):
        raise NoModel('iteration over symbolic map')
    ks = sorted(mp.known, key=lambda e: e[0].const())
    kt = 'B'
    for _, v in ks:
        break
    mk = lambda k: Int(k, mp_kty(mp))
    if what == 'both':
        vs = [Tup([VRef(mk(k)), VRef(v)]) for k, v in ks]
    elif what == 'own':
        vs = [Tup([mk(k), v]) for k, v in ks]
    elif what == 'keys':
        vs = [VRef(mk(k)) for k, v in ks]
    else:
        vs = [VRef(v) for k, v in ks]
    return It(0, len(vs), ('seq', Seq(vs), 'own'))


def mp_kty(mp):
    return 'B'


def it_field(I, v, i):
    if v.acc[0] == 'range' and i in (0, 1):
        return Int(v.lo if i == 0 else v.hi, v.acc[1])
    return Top('iterator field')


def elem(I, st, acc, j):
    """outcomes of the element at position j"""
    k = acc[0]
    if k == 'range':
        return R(st, Int(j, acc[1]))
    if k == 'poly':
        p = subst(acc[2], {acc[1]: st.pc.norm(j)}, deep=True)
        I.sieve.facts(st, p)
        v = Int(st.pc.norm(p), acc[3])
        return R(st, VRef(v) if acc[4] else v)
    if k == 'seq' and isinstance(acc[1], LSeq):
        return [_O(s, 'ret', VRef(v) if acc[2] == 'ref' else v) for s, v in I.sieve.lcases(I, st, acc[1], j)]
    if k == 'seq':
        v = I.seq_at(st, acc[1], j)
        if isinstance(v, Top):
            I.note('element of sequence: %s' % v.why)
        return R(st, VRef(v) if acc[2] == 'ref' else v)
    if k == 'seqmut':
        r = acc[1]
        return R(st, Ref(r.cell, r.path + (('ix', j),)))
    if k == 'deref':
        return [_map1(I, o, lambda v: I.deref(o.st, v) if isinstance(v, (Ref, VRef)) else v) for o in elem(I, st, acc[1].acc, acc[1].lo + j)]
    if k == 'zip':
        out = []
        for o in elem(I, st, acc[1].acc, acc[1].lo + j):
            if o.kind != 'ret':
                out.append(o)
                continue
            for o2 in elem(I, o.st, acc[2].acc, acc[2].lo + j):
                if o2.kind == 'ret':
                    o2.val = Tup([o.val, o2.val])
                out.append(o2)
        return out
    if k == 'enum':
        out = []
        for o in elem(I, st, acc[1].acc, acc[1].lo + j):
            if o.kind == 'ret':
                o.val = Tup([Int(j, ('u', 64)), o.val])
            out.append(o)
        return out
    if k == 'map':
        out = []
        for o in elem(I, st, acc[1].acc, acc[1].lo + j):
            if o.kind != 'ret':
                out.append(o)
                continue
            out += I.call_value(acc[2], [o.val], o.st, acc[3])
        return out
    if k == 'rev':
        return elem(I, st, acc[1].acc, acc[1].hi - 1 - j)
    if k == 'step':
        return elem(I, st, acc[1].acc, acc[1].lo + j * acc[2])
    if k == 'chain':
        n = acc[1].hi - acc[1].lo
        out = []
        for s2 in I.fork(st, f_ge(n - 1 - j)):
            out += elem(I, s2, acc[1].acc, acc[1].lo + j)
        for s2 in I.fork(st, f_ge(j - n)):
            out += elem(I, s2, acc[2].acc, acc[2].lo + j - n)
        return out
    if k == 'const':
        return R(st, acc[1])
    if k == 'win':
        return R(st, VRef(I.slice(st, acc[1], j, j + acc[2])))
    raise NoModel('element of %s' % k)


def _map1(I, o, f):
    if o.kind == 'ret':
        o.val = f(o.val)
    return o


def stateful(acc):
    return acc[0] in ('tw', 'flt') or acc[0] in ('deref', 'map') and stateful(acc[1].acc)


def tw_next(I, st, it, back):
    """next of an iterator that ends where a predicate first fails, or that
    drops elements: an outcome of kind 'again' is a dropped element, after
    which the same call is made once more"""
    if back:
        raise NoModel('take_while or filter from the back')
    acc = it.acc
    out = []
    inner = It(acc[1].lo + it.lo, acc[1].hi, acc[1].acc)
    if acc[0] == 'flt':
        for o, i2 in it_next(I, st, inner):
            step = It(it.lo + 1, it.hi, acc)
            if o.kind != 'ret' or not o.val.fs:
                out.append((o, step if o.kind == 'again' else It(it.lo, it.lo, acc)))
                continue
            x = o.val.fs[0]
            for o2 in I.call_value(acc[2], [VRef(x)], o.st, acc[3]):
                if o2.kind != 'ret':
                    out.append((o2, it))
                    continue
                if not isinstance(o2.val, Bool):
                    raise NoModel('filter predicate')
                for s2 in I.fork(o2.st, o2.val.f):
                    out.append((_O(s2, 'ret', some(x)), step))
                for s2 in I.fork(o2.st, f_not(o2.val.f)):
                    out.append((_O(s2, 'again', None), step))
        return out
    if acc[0] != 'tw':
        for o, i2 in it_next(I, st, inner):
            if o.kind == 'again':
                out.append((o, It(it.lo + 1, it.hi, acc)))
                continue
            more = o.kind == 'ret' and o.val.fs
            new = It(it.lo + 1, it.hi, acc) if more else It(it.lo, it.lo, acc)
            if o.kind != 'ret' or not o.val.fs:
                out.append((o, new))
                continue
            x = o.val.fs[0]
            if acc[0] == 'deref':
                o.val = some(I.deref(o.st, x) if isinstance(x, (Ref, VRef)) else x)
                out.append((o, new))
            else:
                for o2 in I.call_value(acc[2], [x], o.st, acc[3]):
                    if o2.kind == 'ret':
                        o2.val = some(o2.val)
                    out.append((o2, new))
        return out
    for o, i2 in it_next(I, st, inner):
        if o.kind == 'again':
            out.append((o, It(it.lo + 1, it.hi, acc)))
            continue
        if o.kind != 'ret' or not o.val.fs:
            out.append((o, It(it.lo, it.lo, acc)))
            continue
        x = o.val.fs[0]
        for o2 in I.call_value(acc[2], [VRef(x)], o.st, acc[3]):
            if o2.kind != 'ret':
                out.append((o2, it))
                continue
            if not isinstance(o2.val, Bool):
                raise NoModel('take_while predicate')
            for s2 in I.fork(o2.st, o2.val.f):
                out.append((_O(s2, 'ret', some(x)), It(it.lo + 1, it.hi, acc)))
            for s2 in I.fork(o2.st, f_not(o2.val.f)):
                out.append((_O(s2, 'ret', NONE), It(it.hi, it.hi, acc) if it.hi is not None else It(0, 0, acc)))
    return out


@m('std::iter::Iterator::take_while')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    return R(st, It(0, it.hi - it.lo if it.hi is not None else None, ('tw', it, args[1], span)))


@m('std::iter::Iterator::filter')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    return R(st, It(0, it.hi - it.lo if it.hi is not None else None, ('flt', it, args[1], span)))


def it_next(I, st, it, back=False):
    """(outcome with value Some/None, new iterator)"""
    out = []
    if stateful(it.acc):
        return tw_next(I, st, it, back)
    if it.hi is None:
        if back:
            raise NoModel('next_back of unbounded iterator')
        for o in elem(I, st, it.acc, it.lo):
            if o.kind == 'ret':
                o.val = some(o.val)
            out.append((o, It(it.lo + 1, None, it.acc)))
        return out
    for s2 in I.fork(st, f_ge(it.lo - it.hi)):
        out.append((_O(s2, 'ret', NONE), it))
    for s2 in I.fork(st, f_ge(it.hi - it.lo - 1)):
        j = it.hi - 1 if back else it.lo
        for o in elem(I, s2, it.acc, j):
            if o.kind == 'ret':
                o.val = some(o.val)
            out.append((o, It(it.lo, it.hi - 1, it.acc) if back else It(it.lo + 1, it.hi, it.acc)))
    return out


def it_ref(I, st, r):
    """iterator behind a mutable reference, with the place"""
    if not isinstance(r, Ref):
        raise NoModel('iterator reference %r' % (r,))
    v = I.D(st, r)
    while isinstance(I.deref(st, r), Ref):
        r = I.deref(st, r)
    return as_it(I, st, v), r


def _next(back):
    def f(I, st, args, F, rty, span):
        if F.get('inst') in I.P.bodies and not isinstance(I.D(st, args[0]), It):
            v = I.D(st, args[0])
            if not (isinstance(v, Adt) and 'ops::Range' in v.name):
                raise NoModel('local iterator')
        it, r = it_ref(I, st, args[0])
        out = []
        for o, it2 in it_next(I, st, it, back):
            if o.kind in ('ret', 'again'):
                I.write(o.st, r.cell, r.path, it2)
            out.append(o)
        return out
    return f


m('std::iter::Iterator::next')(_next(False))
m('std::iter::DoubleEndedIterator::next_back')(_next(True))


@m('std::iter::IntoIterator::into_iter')
def _(I, st, args, F, rty, span):
    v = args[0]
    if isinstance(v, Adt) and ('Range' in v.name) and rty is not None and 'Range' in I.P.types[rty].get('adt', ''):
        return R(st, as_it(I, st, v))
    if F.get('inst') in I.P.bodies and isinstance(v, (Adt, Tup)) and not ('Option' in getattr(v, 'name', '')):
        raise NoModel('local into_iter')
    return R(st, as_it(I, st, v))


@m('std::slice::[T]::iter', 'std::slice::[T]::iter_mut', 'std::iter::Iterator::by_ref', '[T]::iter')
def _(I, st, args, F, rty, span):
    v = args[0]
    if F['path'].endswith('by_ref'):
        return R(st, v)
    if isinstance(v, VRef) and isinstance(v.v, Ref):
        v = v.v
    return R(st, as_it(I, st, v))


@m('std::iter::Iterator::rev')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    if it.hi is None:
        raise NoModel('rev of unbounded')
    return R(st, It(0, it.hi - it.lo, ('rev', it)))


@m('std::iter::Iterator::enumerate')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    return R(st, It(0, it.hi - it.lo if it.hi is not None else None, ('enum', it)))


@m('std::iter::Iterator::map')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    return R(st, It(0, it.hi - it.lo if it.hi is not None else None, ('map', it, args[1], span)))


@m('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    return R(st, It(0, it.hi - it.lo if it.hi is not None else None, ('deref', it)))


@m('std::iter::Iterator::fuse', 'std::iter::Iterator::into_iter')
def _(I, st, args, F, rty, span):
    return R(st, as_it(I, st, args[0]))


@m('std::iter::Iterator::zip', 'std::iter::zip', 'itertools::Itertools::zip_eq')
def _(I, st, args, F, rty, span):
    a, b = as_it(I, st, args[0]), as_it(I, st, args[1])
    if a.hi is None and b.hi is None:
        return R(st, It(0, None, ('zip', a, b)))
    if a.hi is None or b.hi is None:
        c = a if b.hi is None else b
        return R(st, It(0, c.hi - c.lo, ('zip', a, b)))
    na, nb = a.hi - a.lo, b.hi - b.lo
    out = []
    if st.pc.eq(na - nb):
        return R(st, It(0, na, ('zip', a, b)))
    trim = lambda x, n: It(x.lo, x.lo + n, x.acc)
    for f, n in ((f_ge(nb - na), na), (f_ge(na - nb - 1), nb)):
        for s2 in I.fork(st, f):
            out.append(_O(s2, 'ret', It(0, n, ('zip', trim(a, n), trim(b, n)))))
    return out


@m('std::iter::Iterator::chain')
def _(I, st, args, F, rty, span):
    a, b = as_it(I, st, args[0]), as_it(I, st, args[1])
    if a.hi is None:
        return R(st, a)
    return R(st, It(0, (a.hi - a.lo + b.hi - b.lo) if b.hi is not None else None, ('chain', a, b)))


@m('std::iter::Iterator::skip')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    n = I.D(st, args[1]).p
    if it.hi is None:
        return R(st, It(it.lo + n, None, it.acc))
    out = []
    for s2 in I.fork(st, f_ge(it.hi - it.lo - n)):
        out.append(_O(s2, 'ret', It(it.lo + n, it.hi, it.acc)))
    for s2 in I.fork(st, f_ge(n - 1 - it.hi + it.lo)):
        out.append(_O(s2, 'ret', It(it.hi, it.hi, it.acc)))
    return out


@m('std::iter::Iterator::take')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    n = I.D(st, args[1]).p
    if it.hi is None:
        return R(st, It(it.lo, it.lo + n, it.acc))
    out = []
    for s2 in I.fork(st, f_ge(it.hi - it.lo - n)):
        out.append(_O(s2, 'ret', It(it.lo, it.lo + n, it.acc)))
    for s2 in I.fork(st, f_ge(n - 1 - it.hi + it.lo)):
        out.append(_O(s2, 'ret', it))
    return out


@m('std::iter::Iterator::step_by')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    c = st.pc.norm(I.D(st, args[1]).p).const()
    if not c or c < 0 or it.hi is None:
        raise NoModel('step_by')
    out = []
    for s2 in I.fork(st, f_ge(it.hi - it.lo)):
        out.append(_O(s2, 'ret', It(0, mk_fdiv(it.hi - it.lo + c - 1, P.c(c)), ('step', it, c))))
    for s2 in I.fork(st, f_ge(it.lo - it.hi - 1)):
        out.append(_O(s2, 'ret', It(0, 0, it.acc)))
    return out


@m('std::iter::repeat')
def _(I, st, args, F, rty, span):
    return R(st, It(0, None, ('const', args[0])))


@m('std::iter::once')
def _(I, st, args, F, rty, span):
    return R(st, It(0, 1, ('const', args[0])))


@m('std::iter::empty')
def _(I, st, args, F, rty, span):
    return R(st, It(0, 0, ('const', UNIT)))


@m('std::slice::[T]::windows')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    c = st.pc.norm(I.D(st, args[1]).p).const()
    n = I.seq_len(v)
    if not c or n is None:
        raise NoModel('windows')
    out = []
    for s2 in I.fork(st, f_ge(n - c)):
        out.append(_O(s2, 'ret', It(0, n - c + 1, ('win', v, c))))
    for s2 in I.fork(st, f_ge(c - 1 - n)):
        out.append(_O(s2, 'ret', It(0, 0, ('win', v, c))))
    return out


@m('std::ops::RangeInclusive::new')
def _(I, st, args, F, rty, span):
    return R(st, Adt('std::ops::RangeInclusive', 0, None, (args[0], args[1], Bool(False))))


@m('std::ops::RangeInclusive::start', 'std::ops::RangeInclusive::end')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    if not isinstance(v, Adt):
        raise NoModel('range bound')
    return R(st, VRef(v.fs[0 if F['path'].endswith('start') else 1]))


@m('std::ops::Range::contains', 'std::ops::RangeInclusive::contains', 'std::ops::RangeBounds::contains',
   'std::ops::RangeFrom::contains', 'std::ops::RangeTo::contains', 'std::ops::RangeToInclusive::contains')
def _(I, st, args, F, rty, span):
    r, x = I.D(st, args[0]), I.D(st, args[1])
    if not isinstance(r, Adt) or not isinstance(x, Int):
        raise NoModel('contains')
    b = [I.D(st, f) for f in r.fs]
    n = r.name.split('::')[-1]
    if n == 'Range':
        return R(st, Bool(f_and(f_ge(x.p - b[0].p), f_ge(b[1].p - x.p - 1))))
    if n == 'RangeInclusive':
        return R(st, Bool(f_and(f_ge(x.p - b[0].p), f_ge(b[1].p - x.p))))
    if n == 'RangeFrom':
        return R(st, Bool(f_ge(x.p - b[0].p)))
    if n == 'RangeTo':
        return R(st, Bool(f_ge(b[0].p - x.p - 1)))
    if n == 'RangeToInclusive':
        return R(st, Bool(f_ge(b[0].p - x.p)))
    raise NoModel('contains')


@m('std::iter::ExactSizeIterator::len', 'std::iter::Iterator::count')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0]) if isinstance(args[0], (Ref, VRef)) else args[0]
    it = as_it(I, st, v)
    if it.hi is None:
        raise NoModel('len of unbounded')
    if F['path'].endswith('count') and (has_effect(it.acc) or stateful(it.acc)):
        return consume(I, st, it, Int(0, ('u', 64)), lambda s, acc, x: [_O(s, 'ret', Int(acc.p + 1, ('u', 64)))], span)
    out = []
    for s2 in I.fork(st, f_ge(it.hi - it.lo)):
        out.append(_O(s2, 'ret', Int(it.hi - it.lo, ('u', 64))))
    for s2 in I.fork(st, f_ge(it.lo - it.hi - 1)):
        out.append(_O(s2, 'ret', Int(0, ('u', 64))))
    return out


def has_effect(acc):
    if stateful(acc):
        return True
    return acc[0] == 'map' or any(isinstance(x, It) and has_effect(x.acc) for x in acc[1:])


BRK = 'brk'


def consume(I, st, it, acc0, f, span, fin=None):
    """run `f(state, acc, element) -> outcomes` over the iterator; an outcome of
    kind 'brk' ends the loop with that value"""
    st = st.copy()
    ci, ca = I.heap(st, it), I.heap(st, acc0)

    def step(s):
        out = []
        for o, it2 in it_next(I, s, s.cells[ci]):
            if o.kind == 'again':
                o.st.cells[ci] = it2
                out.append(_O(o.st, 'back', None))
                continue
            if o.kind != 'ret':
                out.append(o)
                continue
            if o.val.v == 0:
                out.append(_O(o.st, 'exit', ('end',)))
                continue
            o.st.cells[ci] = it2
            for o2 in f(o.st, o.st.cells[ca], o.val.fs[0]):
                if o2.kind == 'ret':
                    o2.st.cells[ca] = o2.val
                    out.append(_O(o2.st, 'back', None))
                elif o2.kind == BRK:
                    out.append(_O(o2.st, 'exit', ('brk', o2.val)))
                else:
                    out.append(o2)
        return out
    res = []
    for o in I.loops.run(I, st, step, 'iterator consumer at %s' % (span,)):
        if o.kind == 'exit':
            v = o.val[1] if o.val[0] == 'brk' else (fin(o.st, o.st.cells[ca]) if fin else o.st.cells[ca])
            brk = o.val[0] == 'brk'
            o.st.cells.pop(ci, None)
            o.st.cells.pop(ca, None)
            r = _O(o.st, 'ret', v)
            r.chain = ()
            res.append(r)
        else:
            res.append(o)
    return res


@m('std::iter::Iterator::fold', 'std::iter::DoubleEndedIterator::rfold')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    if F['path'].endswith('rfold'):
        it = It(0, it.hi - it.lo, ('rev', it))
    st = st.copy()
    fc = Ref(I.heap(st, args[2])) if isinstance(args[2], Clo) else args[2]
    return consume(I, st, it, args[1], lambda s, acc, x: I.call_value(fc, [acc, x], s, span), span)


@m('std::iter::Iterator::reduce')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    out = []
    for o, it2 in it_next(I, st, it):
        if o.kind == 'again':
            raise NoModel('reduce of a filtered iterator')
        if o.kind != 'ret' or o.val.v == 0:
            out.append(o)
            continue
        fc = Ref(I.heap(o.st, args[1])) if isinstance(args[1], Clo) else args[1]
        out += consume(I, o.st, it2, o.val.fs[0], lambda s, acc, x: I.call_value(fc, [acc, x], s, span), span, lambda s, v: some(v))
    return out


@m('std::iter::Iterator::for_each')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    st = st.copy()
    fc = Ref(I.heap(st, args[1])) if isinstance(args[1], Clo) else args[1]
    return consume(I, st, it, UNIT, lambda s, acc, x: I.call_value(fc, [x], s, span), span)


def _sp(op, init):
    def f(I, st, args, F, rty, span):
        it = as_it(I, st, args[0])
        k = rk(I, rty)
        if k is None:
            raise NoModel('sum/product')

        def g(s, acc, x):
            x = I.D(s, x)
            if not isinstance(x, Int):
                raise NoModel('sum/product of %r' % (x,))
            return fit(I, s, arith(op, acc.p, x.p), k, span, op)
        return consume(I, st, it, Int(init, k), g, span)
    return f


m('std::iter::Iterator::sum', 'std::iter::Sum::sum')(_sp('add', 0))
m('std::iter::Iterator::product', 'std::iter::Product::product')(_sp('mul', 1))


def _allany(stop):
    def f(I, st, args, F, rty, span):
        r = args[0]
        it, place = it_ref(I, st, r) if isinstance(r, Ref) else (as_it(I, st, r), None)
        st = st.copy()
        fc = Ref(I.heap(st, args[1])) if isinstance(args[1], Clo) else args[1]

        def g(s, acc, x):
            out = []
            for o in I.call_value(fc, [x], s, span):
                if o.kind != 'ret':
                    out.append(o)
                    continue
                b = I.D(o.st, o.val)
                if not isinstance(b, Bool):
                    b = Bool(('fl', o.st.sk(('u', 1)), True))
                for s2 in I.fork(o.st, b.f if stop else f_not(b.f)):
                    out.append(_O(s2, BRK, Bool(stop)))
                for s2 in I.fork(o.st, f_not(b.f) if stop else b.f):
                    out.append(_O(s2, 'ret', UNIT))
            return out
        outs = consume(I, st, it, UNIT, g, span, lambda s, v: Bool(not stop))
        if place is not None:
            for o in outs:
                if o.kind == 'ret':
                    I.write(o.st, place.cell, place.path, Top('partly consumed iterator'))
        return outs
    return f


m('std::iter::Iterator::any')(_allany(True))
m('std::iter::Iterator::all')(_allany(False))


@m('std::slice::[T]::contains')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])

    def g(s, acc, x):
        f = equal(I, s, x, args[1])
        return [_O(s2, BRK, Bool(True)) for s2 in I.fork(s, f)] + [_O(s2, 'ret', UNIT) for s2 in I.fork(s, f_not(f))]
    return consume(I, st.copy(), it, UNIT, g, span, lambda s, v: Bool(False))


@m('std::bool::then', 'std::bool::then_some')
def _(I, st, args, F, rty, span):
    b = I.D(st, args[0])
    out = [_O(s2, 'ret', NONE) for s2 in I.fork(st, f_not(b.f))]
    for s2 in I.fork(st, b.f):
        if F['path'].endswith('then_some'):
            out.append(_O(s2, 'ret', some(args[1])))
            continue
        for o in I.call_value(args[1], [], s2, span):
            if o.kind == 'ret':
                o.val = some(o.val)
            out.append(o)
    return out


def _find(what):
    def f(I, st, args, F, rty, span):
        it, place = it_ref(I, st, args[0])
        st = st.copy()
        fc = Ref(I.heap(st, args[1])) if isinstance(args[1], Clo) else args[1]

        def g(s, acc, x):
            out = []
            for o in I.call_value(fc, [VRef(x) if what == 'find' else x], s, span):
                if o.kind != 'ret':
                    out.append(o)
                    continue
                b = I.D(o.st, o.val)
                if what == 'find_map':
                    if not isinstance(b, Adt):
                        raise NoModel('find_map')
                    out.append(_O(o.st, BRK, b) if b.v else _O(o.st, 'ret', UNIT))
                    continue
                if not isinstance(b, Bool):
                    b = Bool(('fl', o.st.sk(('u', 1)), True))
                for s2 in I.fork(o.st, b.f):
                    out.append(_O(s2, BRK, some(x if what == 'find' else acc)))
                for s2 in I.fork(o.st, f_not(b.f)):
                    out.append(_O(s2, 'ret', Int(acc.p + 1, ('u', 64)) if what == 'position' else UNIT))
            return out
        outs = consume(I, st, it, Int(0, ('u', 64)) if what == 'position' else UNIT, g, span, lambda s, v: NONE)
        for o in outs:
            if o.kind == 'ret':
                I.write(o.st, place.cell, place.path, Top('partly consumed iterator'))
        return outs
    return f


m('std::iter::Iterator::find')(_find('find'))
m('std::iter::Iterator::position')(_find('position'))
m('std::iter::Iterator::find_map')(_find('find_map'))


@m('std::iter::Iterator::try_fold', 'std::iter::Iterator::try_for_each')
def _(I, st, args, F, rty, span):
    it, place = it_ref(I, st, args[0])
    fold = F['path'].endswith('try_fold')
    st = st.copy()
    cl = args[2] if fold else args[1]
    fc = Ref(I.heap(st, cl)) if isinstance(cl, Clo) else cl
    T = I.P.types[rty]
    if T['k'] != 'adt' or T['adt'].split('::')[-1] not in ('Option', 'Result', 'ControlFlow'):
        raise NoModel('try_fold')
    good = {'Option': 'Some', 'Result': 'Ok', 'ControlFlow': 'Continue'}[T['adt'].split('::')[-1]]
    gi = [i for i, v in enumerate(T['variants']) if v['name'] == good][0]

    def g(s, acc, x):
        out = []
        for o in I.call_value(fc, [acc, x] if fold else [x], s, span):
            if o.kind != 'ret':
                out.append(o)
                continue
            v = o.val
            if not isinstance(v, Adt):
                raise NoModel('try_fold step result')
            out.append(_O(o.st, 'ret', v.fs[0]) if v.vn == good else _O(o.st, BRK, v))
        return out
    outs = consume(I, st, it, args[1] if fold else UNIT, g, span, lambda s, v: Adt(T['adt'], gi, good, (v,)))
    for o in outs:
        if o.kind == 'ret':
            I.write(o.st, place.cell, place.path, Top('partly consumed iterator'))
    return outs


@m('std::iter::Iterator::last')
def _(I, st, args, F, rty, span):
    it = as_it(I, st, args[0])
    return [o for o, _ in it_next(I, st, it, True)]


@m('std::iter::Iterator::nth')
def _(I, st, args, F, rty, span):
    it, r = it_ref(I, st, args[0])
    n = I.D(st, args[1]).p
    if it.hi is None:
        raise NoModel('nth')
    out = []
    for s2 in I.fork(st, f_ge(it.hi - it.lo - n - 1)):
        for o in elem(I, s2, it.acc, it.lo + n):
            if o.kind == 'ret':
                I.write(o.st, r.cell, r.path, It(it.lo + n + 1, it.hi, it.acc))
                o.val = some(o.val)
            out.append(o)
    for s2 in I.fork(st, f_ge(n - it.hi + it.lo)):
        I.write(s2, r.cell, r.path, It(it.hi, it.hi, it.acc))
        out.append(_O(s2, 'ret', NONE))
    return out


@m('std::iter::Iterator::collect', 'itertools::Itertools::collect_vec', 'std::iter::FromIterator::from_iter',
   'std::slice::[T]::to_vec', 'std::slice::[T]::into_vec')
def _(I, st, args, F, rty, span):
    T = I.P.types[rty]
    if F['path'].endswith('to_vec') or F['path'].endswith('into_vec'):
        return R(st, I.D(st, args[0]))
    it = as_it(I, st, args[0])
    if T['k'] != 'adt':
        raise NoModel('collect')
    n = T['adt'].split('::')[-1]
    if I.lazy and n in ('Vec', 'Box') or n.endswith('Map') and I.lazy:
        outs = (I.sieve.collect_table if n.endswith('Map') else I.sieve.collect_list)(I, st, it)
        if outs is not None:
            return outs
    if n in ('Vec', 'Box'):
        v = it_view(I, st, it)
        if v is not None:
            return R(st, v)
        return consume(I, st, it, Seq(()), lambda s, acc, x: [_O(s, 'ret', seq_push(I, s, acc, x))], span)
    if n.endswith('Map'):
        return consume(I, st, it, Map(), lambda s, acc, x: [_O(s, 'ret', map_insert(I, s, acc, *tup2(I, s, x)))], span)
    if n in ('Option', 'Result'):
        inner = I.P.types[T['args'][0]]
        if inner['k'] != 'adt' or inner['adt'].split('::')[-1] != 'Vec':
            raise NoModel('collect')
        good = 'Some' if n == 'Option' else 'Ok'

        def g(s, acc, x):
            if not isinstance(x, Adt):
                raise NoModel('collect of %r' % (x,))
            return [_O(s, 'ret', seq_push(I, s, acc, x.fs[0]))] if x.vn == good else [_O(s, BRK, x)]
        return consume(I, st, it, Seq(()), g, span, lambda s, v: some(v) if n == 'Option' else ok(v))
    raise NoModel('collect into %s' % n)


def tup2(I, st, x):
    x = I.D(st, x)
    if not isinstance(x, Tup) or len(x.fs) != 2:
        raise NoModel('pair')
    return x.fs


def it_view(I, st, it):
    """the iterator as an existing sequence, when it is a plain copy of one"""
    acc = it.acc
    lo, hi = it.lo, it.hi
    if acc[0] == 'deref' and lo.const() == 0:
        inner = acc[1]
        if inner.acc[0] == 'seq' and inner.acc[2] == 'ref' and isinstance(inner.acc[1], SSeq):
            s = inner.acc[1]
            if s.shape[0] != 'ref':
                return I.slice(st, s, inner.lo, inner.lo + hi)
    if acc[0] == 'seq' and acc[2] == 'own' and isinstance(acc[1], SSeq):
        return I.slice(st, acc[1], lo, hi)
    return None


# --------------------------------------------------------------- sequences
def seq_push(I, st, v, x):
    if isinstance(v, Seq):
        return Seq(v.vs + (x,))
    if isinstance(v, SSeq):
        return SSeq(v.base, v.off, v.n, v.shape, v.tail + (x,))
    if isinstance(v, LSeq) and isinstance(I.D(st, x), Int):
        return LSeq(v.segs + ((I.sieve.new_pos(), P.c(1), st.pc.norm(I.D(st, x).p)),), v.ty)
    return Top('push to %r' % (v,))


@m('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::vec::Vec::new_in')
def _(I, st, args, F, rty, span):
    return R(st, Seq(()))


@m('std::vec::Vec::push')
def _(I, st, args, F, rty, span):
    r = args[0]
    if not isinstance(r, Ref):
        raise NoModel('push')
    I.write(st, r.cell, r.path, seq_push(I, st, I.D(st, r), args[1]))
    return R(st, UNIT)


@m('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'std::mem::drop', 'std::mem::forget', 'std::vec::Vec::reserve_exact')
def _(I, st, args, F, rty, span):
    return R(st, UNIT)


@m('std::vec::Vec::pop')
def _(I, st, args, F, rty, span):
    r = args[0]
    v = I.D(st, r)
    n = I.seq_len(v)
    if n is None or not isinstance(r, Ref):
        raise NoModel('pop')
    out = []
    for s2 in I.fork(st, f_eq(n)):
        out.append(_O(s2, 'ret', NONE))
    for s2 in I.fork(st, f_ge(n - 1)):
        x = I.seq_at(s2, v, n - 1)
        if isinstance(v, Seq):
            w = Seq(v.vs[:-1])
        elif v.tail:
            w = SSeq(v.base, v.off, v.n, v.shape, v.tail[:-1])
        else:
            w = SSeq(v.base, v.off, v.n - 1, v.shape)
        I.write(s2, r.cell, r.path, w)
        out.append(_O(s2, 'ret', some(x)))
    return out


@m('std::vec::Vec::swap_remove', 'std::vec::Vec::remove')
def _(I, st, args, F, rty, span):
    r, v, k = args[0], I.D(st, args[0]), I.D(st, args[1])
    i = st.pc.norm(k.p).const() if isinstance(k, Int) else None
    if not isinstance(v, Seq) or i is None or not isinstance(r, Ref):
        raise NoModel('removal from a sequence')
    if i >= len(v.vs):
        return [pan(st, 'removal out of range', span)]
    vs = list(v.vs)
    x = vs[i]
    if F['path'].endswith('swap_remove'):
        vs[i] = vs[-1]
        vs.pop()
    else:
        del vs[i]
    I.write(st, r.cell, r.path, Seq(vs))
    return R(st, x)


@m('std::vec::Vec::clear')
def _(I, st, args, F, rty, span):
    I.write(st, args[0].cell, args[0].path, Seq(()))
    return R(st, UNIT)


@m('std::vec::Vec::truncate')
def _(I, st, args, F, rty, span):
    r = args[0]
    v, k = I.D(st, r), I.D(st, args[1]).p
    n = I.seq_len(v)
    if n is None:
        raise NoModel('truncate')
    out = []
    for s2 in I.fork(st, f_ge(k - n)):
        out.append(_O(s2, 'ret', UNIT))
    for s2 in I.fork(st, f_ge(n - k - 1)):
        I.write(s2, r.cell, r.path, I.slice(s2, v, P.c(0), k))
        out.append(_O(s2, 'ret', UNIT))
    return out


@m('std::iter::Extend::extend', 'std::vec::Vec::extend_from_slice')
def _(I, st, args, F, rty, span):
    r = args[0]
    v = I.D(st, r)
    it = as_it(I, st, args[1])
    if isinstance(v, Map):
        outs = consume(I, st, it, v, lambda s, acc, x: [_O(s, 'ret', map_insert(I, s, acc, *tup2(I, s, x)))], span)
    elif I.lazy and I.sieve.as_lseq(v) is not None and I.sieve.collect_list(I, st, it) is not None:
        outs = I.sieve.collect_list(I, st, it)
        for o in outs:
            if o.kind == 'ret':
                w = o.val
                o.val = I.sieve.concat(I, o.st, I.sieve.as_lseq(v), w) if isinstance(w, LSeq) else v
    elif isinstance(v, (Seq, SSeq)):
        outs = consume(I, st, it, v, lambda s, acc, x: [_O(s, 'ret', seq_push(I, s, acc, I.D(s, x)))], span)
    else:
        raise NoModel('extend')
    for o in outs:
        if o.kind == 'ret':
            I.write(o.st, r.cell, r.path, o.val)
            o.val = UNIT
    return outs


@m('std::slice::[T]::len', 'std::vec::Vec::len', 'std::string::String::len', 'std::str::str::len', 'str::len')
def _(I, st, args, F, rty, span):
    n = I.seq_len(I.D(st, args[0]))
    if n is None:
        return R(st, Int(st.sk(('u', 63)), ('u', 64)))
    return R(st, Int(n, ('u', 64)))


@m('std::slice::[T]::is_empty', 'std::vec::Vec::is_empty', 'std::string::String::is_empty', 'std::str::str::is_empty')
def _(I, st, args, F, rty, span):
    n = I.seq_len(I.D(st, args[0]))
    if n is None:
        return R(st, Bool(('fl', st.sk(('u', 1)), True)))
    return R(st, Bool(f_eq(n)))


def bounds(I, st, idx, n):
    """(lo, hi, formula that it is in bounds) for a range index"""
    name = idx.name.split('::')[-1] if isinstance(idx, Adt) else ''
    f = [I.D(st, x) for x in idx.fs] if isinstance(idx, Adt) else []
    if name == 'Range':
        lo, hi = f[0].p, f[1].p
    elif name == 'RangeInclusive':
        lo, hi = f[0].p, f[1].p + 1
    elif name == 'RangeFrom':
        lo, hi = f[0].p, n
    elif name == 'RangeTo':
        lo, hi = P.c(0), f[0].p
    elif name == 'RangeToInclusive':
        lo, hi = P.c(0), f[0].p + 1
    elif name == 'RangeFull':
        lo, hi = P.c(0), n
    else:
        raise NoModel('index by %r' % (idx,))
    return lo, hi, f_and(f_ge(hi - lo), f_ge(n - hi), f_ge(lo))


def _index(mut):
    def f(I, st, args, F, rty, span):
        r = args[0]
        if isinstance(r, VRef) and isinstance(r.v, (Ref, VRef)):
            r = r.v
        v = I.D(st, r)
        idx = I.D(st, args[1])
        if isinstance(v, Map):
            out = []
            if not isinstance(idx, Int):
                raise NoModel('map index')
            for s2, val in map_get(I, st, v, idx.p):
                if val is None:
                    out.append(pan(s2, 'map index: no entry for key', span))
                else:
                    out.append(_O(s2, 'ret', VRef(val)))
            return out
        if isinstance(v, GMap):
            if not isinstance(idx, Int):
                raise NoModel('map index')
            got = I.sieve.get(I, st, v, idx.p)
            if got is None:
                raise NoModel('key %s of the table' % show(st.pc.norm(idx.p)))
            return [_O(s2, 'ret', VRef(Int(x, v.ty))) for s2, x in got]
        n = I.seq_len(v)
        if n is None or isinstance(v, Str):
            raise NoModel('index into %r' % (v,))
        out = []
        if isinstance(idx, Int):
            good = f_and(f_ge(idx.p), f_ge(n - 1 - idx.p))
            for s2 in I.fork(st, f_not(good)):
                out.append(pan(s2, 'index out of bounds', span))
            for s2 in I.fork(st, good):
                if mut:
                    out.append(_O(s2, 'ret', Ref(r.cell, r.path + (('ix', idx.p),))))
                else:
                    for s3, x in I.sieve.lcases(I, s2, v, idx.p):
                        out.append(_O(s3, 'ret', VRef(x)))
            return out
        if mut:
            raise NoModel('mutable range index')
        lo, hi, good = bounds(I, st, idx, n)
        for s2 in I.fork(st, f_not(good)):
            out.append(pan(s2, 'slice index out of range', span))
        for s2 in I.fork(st, good):
            out.append(_O(s2, 'ret', VRef(I.slice(s2, v, lo, hi))))
        return out
    return f


m('std::ops::Index::index')(_index(False))
m('std::ops::IndexMut::index_mut')(_index(True))


@m('std::slice::[T]::get')
def _(I, st, args, F, rty, span):
    v, idx = I.D(st, args[0]), I.D(st, args[1])
    n = I.seq_len(v)
    if n is None:
        raise NoModel('get')
    out = []
    if isinstance(idx, Int):
        good = f_and(f_ge(idx.p), f_ge(n - 1 - idx.p))
        for s2 in I.fork(st, good):
            for s3, x in I.sieve.lcases(I, s2, v, idx.p):
                out.append(_O(s3, 'ret', some(VRef(x))))
    else:
        lo, hi, good = bounds(I, st, idx, n)
        for s2 in I.fork(st, good):
            out.append(_O(s2, 'ret', some(VRef(I.slice(s2, v, lo, hi)))))
    for s2 in I.fork(st, f_not(good)):
        out.append(_O(s2, 'ret', NONE))
    return out


def _firstlast(last, split=False):
    def f(I, st, args, F, rty, span):
        v = I.D(st, args[0])
        n = I.seq_len(v)
        if n is None:
            raise NoModel('first/last')
        out = []
        for s2 in I.fork(st, f_eq(n)):
            out.append(_O(s2, 'ret', NONE))
        for s2, x in [q for s in I.fork(st, f_ge(n - 1)) for q in I.sieve.lcases(I, s, v, n - 1 if last else P.c(0))]:
            x = VRef(x)
            if split:
                rest = VRef(I.slice(s2, v, P.c(0), n - 1) if last else I.slice(s2, v, P.c(1), n))
                x = Tup([x, rest])
            out.append(_O(s2, 'ret', some(x)))
        return out
    return f


m('std::slice::[T]::first')(_firstlast(False))
m('std::slice::[T]::last')(_firstlast(True))
m('std::slice::[T]::split_first')(_firstlast(False, True))
m('std::slice::[T]::split_last')(_firstlast(True, True))


@m('std::slice::[T]::split_at')
def _(I, st, args, F, rty, span):
    v, k = I.D(st, args[0]), I.D(st, args[1]).p
    n = I.seq_len(v)
    if n is None:
        raise NoModel('split_at')
    out = [pan(s2, 'split_at out of range', span) for s2 in I.fork(st, f_ge(k - n - 1))]
    for s2 in I.fork(st, f_ge(n - k)):
        out.append(_O(s2, 'ret', Tup([VRef(I.slice(s2, v, P.c(0), k)), VRef(I.slice(s2, v, k, n))])))
    return out


@m('std::slice::[T]::reverse', 'std::slice::[T]::sort', 'std::slice::[T]::sort_unstable', 'std::slice::[T]::swap')
def _(I, st, args, F, rty, span):
    r = args[0]
    v = I.D(st, r)
    if isinstance(v, Seq) and F['path'].endswith('reverse'):
        I.write(st, r.cell, r.path, Seq(v.vs[::-1]))
        return R(st, UNIT)
    if isinstance(v, Seq) and F['path'].endswith('swap'):
        a, b = (st.pc.norm(I.D(st, x).p).const() for x in args[1:])
        if a is not None and b is not None and max(a, b) < len(v.vs):
            vs = list(v.vs)
            vs[a], vs[b] = vs[b], vs[a]
            I.write(st, r.cell, r.path, Seq(vs))
            return R(st, UNIT)
    raise NoModel('in-place permutation')


@m('std::boxed::Box::new_uninit')
def _(I, st, args, F, rty, span):
    return R(st, Bx(I.heap(st, Top('box-uninit'))))


@m('std::boxed::Box::new')
def _(I, st, args, F, rty, span):
    return R(st, Bx(I.heap(st, args[0])))


@m('std::boxed::box_assume_init_into_vec_unsafe')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    if not isinstance(v, Seq):
        raise NoModel('vec! literal')
    return R(st, v)


@m('std::vec::from_elem')
def _(I, st, args, F, rty, span):
    n = st.pc.norm(I.D(st, args[1]).p)
    c = n.const()
    if c is not None and c <= 4096:
        return R(st, Seq([args[0]] * c))
    raise NoModel('vec![x; n]')


# --------------------------------------------------------------- maps
def key_of(I, st, k):
    k = I.D(st, k)
    if not isinstance(k, Int):
        raise NoModel('map key %r' % (k,))
    return k.p


def map_insert(I, st, mp, k, v):
    if isinstance(mp, GMap):
        k, x = key_of(I, st, k), I.D(st, v)
        w = None
        if isinstance(x, Int):
            mp = I.sieve.whole(st, mp)
            w = (I.sieve.put if mp.cnt is None else I.sieve.add_key)(I, st, mp, k, x.p)
        return w if w is not None else Top('the table entry of %s becomes %r' % (show(st.pc.norm(k)), x))
    if not isinstance(mp, Map):
        return Top('insert into %r' % (mp,))
    k = st.pc.norm(key_of(I, st, k))
    kn = [(a, b) for a, b in mp.known if a != k]
    if mp.rel is not None:
        f = mp.rel
        x = I.D(st, v)
        if not (isinstance(x, Int) and st.pc.eq(x.p - f(k))):
            return Top('insertion breaks the map relation: key %s, value %r' % (k, v))
        if k.const() is None:
            return Map(mp.known, mp.rel)
        return Map(kn + [(k, v)], mp.rel)
    for a, _ in kn:
        if not st.pc.ne(a - k):
            # possibly aliasing keys: keep order, lookups compare from the end
            pass
    return Map(kn + [(k, v)], None)


def map_get(I, st, mp, k):
    """(state, value or None) partition"""
    out = []
    cur = [st]
    k = st.pc.norm(k)
    c = k.const()
    if c is not None and all(a.const() is not None for a, _ in mp.known) and mp.rel is None:
        for a, v in mp.known:
            if a.const() == c:
                return [(st, v)]
        return [(st, None)]
    for a, v in reversed(mp.known):
        nxt = []
        for s in cur:
            for s2 in I.fork(s, f_eq(k - a)):
                out.append((s2, v))
            nxt += I.fork(s, f_not(f_eq(k - a)))
        cur = nxt
    for s in cur:
        if mp.rel is not None:
            s2 = s.copy()
            out.append((s2, Int(mp.rel(k), mp.rel.vty)))
        out.append((s, None))
    return out


def map_at(I, st, v, k):
    if isinstance(v, GMap):
        got = I.sieve.get(I, st, v, k)
        if got is None or len(got) != 1:
            return Top('entry of the table')
        st.pc = got[0][0].pc
        return Int(got[0][1], v.ty)
    if not isinstance(v, Map):
        return Top('map entry')
    for a, x in reversed(v.known):
        d = st.pc.norm(a - k).const()
        if d == 0:
            return x
        if d is None and not st.pc.ne(a - k):
            return Top('map entry')
    if v.rel is not None:
        return Int(v.rel(k), v.rel.vty)
    return Top('map entry')


def map_set(I, st, v, k, f):
    if isinstance(v, GMap):
        x = f(map_at(I, st, v, k))
        w = I.sieve.put(I, st, v, k, x.p) if isinstance(x, Int) else None
        return w if w is not None else Top('the table entry of %s becomes %r' % (show(st.pc.norm(k)), x))
    if not isinstance(v, Map):
        return Top('map write')
    return map_insert(I, st, v, Int(k, 'B'), f(map_at(I, st, v, k)))


@m('map::new', 'map::with_capacity')
def _(I, st, args, F, rty, span):
    return R(st, Map())


@m('map::insert')
def _(I, st, args, F, rty, span):
    r = args[0]
    v = I.D(st, r)
    if isinstance(v, GMap) and isinstance(r, Ref):
        I.write(st, r.cell, r.path, map_insert(I, st, v, args[1], args[2]))
        return R(st, Top('previous entry'))
    if not isinstance(v, Map) or not isinstance(r, Ref):
        raise NoModel('insert into %r' % (v,))
    I.write(st, r.cell, r.path, map_insert(I, st, v, args[1], args[2]))
    return R(st, Top('previous entry'))


def table_get(I, st, v, k, f):
    got = I.sieve.get(I, st, v, k)
    if got is None:
        raise NoModel('key %s of the table' % show(st.pc.norm(k)))
    return [_O(s, 'ret', f(s, Int(x, v.ty))) for s, x in got]


@m('map::get')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    if isinstance(v, GMap):
        return table_get(I, st, v, key_of(I, st, args[1]), lambda s, x: some(VRef(x)))
    if not isinstance(v, Map):
        raise NoModel('get from %r' % (v,))
    return [_O(s2, 'ret', NONE if x is None else some(VRef(x))) for s2, x in map_get(I, st, v, key_of(I, st, args[1]))]


@m('map::contains_key')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    if not isinstance(v, Map):
        raise NoModel('contains_key')
    return [_O(s2, 'ret', Bool(x is not None)) for s2, x in map_get(I, st, v, key_of(I, st, args[1]))]


@m('map::get_mut')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    k = key_of(I, st, args[1])
    r = args[0]
    if isinstance(v, GMap) and isinstance(r, Ref):
        return table_get(I, st, v, k, lambda s, x: some(Ref(r.cell, r.path + (('key', k),))))
    if not isinstance(v, Map):
        raise NoModel('get_mut')
    return [_O(s2, 'ret', NONE if x is None else some(Ref(r.cell, r.path + (('key', k),)))) for s2, x in map_get(I, st, v, k)]


@m('map::entry')
def _(I, st, args, F, rty, span):
    r = args[0]
    if not isinstance(r, Ref) or not isinstance(I.D(st, r), (Map, GMap)):
        raise NoModel('entry')
    return R(st, Adt('map::Entry', 0, 'Entry', [r, Int(key_of(I, st, args[1]), ('u', 64))]))


def entry_of(I, st, e):
    """[(state, present)], map reference and key of an entry"""
    e = I.D(st, e)
    if not isinstance(e, Adt) or e.name != 'map::Entry':
        raise NoModel('entry')
    r, k = e.fs[0], e.fs[1].p
    v = I.D(st, r)
    if isinstance(v, GMap):
        got = I.sieve.get(I, st, v, k)
        if got is None:
            raise NoModel('key %s of the table' % show(st.pc.norm(k)))
        return r, k, [(s, True) for s, _ in got]
    if not isinstance(v, Map):
        raise NoModel('entry of %r' % (v,))
    return r, k, [(s, x is not None) for s, x in map_get(I, st, v, k)]


def _or_insert(kind):
    def f(I, st, args, F, rty, span):
        r, k, cases = entry_of(I, st, args[0])
        out = []
        for s, present in cases:
            ref = Ref(r.cell, r.path + (('key', k),))
            if present:
                out.append(_O(s, 'ret', ref))
                continue
            if kind == 'value':
                outs = [_O(s, 'ret', args[1])]
            else:
                outs = I.call_value(args[1], [], s, span)
            for o in outs:
                if o.kind == 'ret':
                    I.write(o.st, r.cell, r.path, map_insert(I, o.st, I.deref(o.st, r), Int(k, ('u', 64)), o.val))
                    o = _O(o.st, 'ret', ref)
                out.append(o)
        return out
    return f


for _p in ('std::collections::btree_map::Entry::', 'std::collections::hash_map::Entry::', 'std::collections::btree_map::entry::Entry::'):
    m(_p + 'or_insert')(_or_insert('value'))
    m(_p + 'or_insert_with')(_or_insert('call'))

    @m(_p + 'and_modify')
    def _(I, st, args, F, rty, span):
        r, k, cases = entry_of(I, st, args[0])
        out = []
        for s, present in cases:
            if not present:
                out.append(_O(s, 'ret', args[0]))
                continue
            for o in I.call_value(args[1], [Ref(r.cell, r.path + (('key', k),))], s, span):
                out.append(_O(o.st, 'ret', args[0]) if o.kind == 'ret' else o)
        return out


@m('map::remove')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    if isinstance(v, GMap):
        out = table_get(I, st, v, key_of(I, st, args[1]), lambda s, x: some(x))
        for o in out:
            I.write(o.st, args[0].cell, args[0].path, Top('an entry of the table is removed'))
        return out
    if not isinstance(v, Map) or v.rel is not None:
        raise NoModel('remove')
    k = key_of(I, st, args[1])
    out = []
    for s2, x in map_get(I, st, v, k):
        if x is not None:
            kn = [(a, b) for a, b in v.known if not s2.pc.eq(a - k)]
            I.write(s2, args[0].cell, args[0].path, Map(kn, None))
        out.append(_O(s2, 'ret', NONE if x is None else some(x)))
    return out


@m('map::iter', 'map::keys', 'map::values', 'map::into_iter')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    if not isinstance(v, Map):
        raise NoModel('map iteration')
    return R(st, map_iter(I, v, {'iter': 'both', 'keys': 'keys', 'values': 'values', 'into_iter': 'own'}[F['path'].split('::')[-1]]))


@m('map::len')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    if isinstance(v, Map) and v.rel is None and all(k.const() is not None for k, _ in v.known):
        return R(st, Int(len(v.known), ('u', 64)))
    return R(st, Int(st.sk(('u', 63)), ('u', 64)))


# --------------------------------------------------------------- misc
@m('std::mem::swap')
def _(I, st, args, F, rty, span):
    a, b = args
    if not (isinstance(a, Ref) and isinstance(b, Ref)):
        raise NoModel('swap')
    x, y = I.deref(st, a), I.deref(st, b)
    I.write(st, a.cell, a.path, y)
    I.write(st, b.cell, b.path, x)
    return R(st, UNIT)


@m('std::mem::replace', 'std::mem::take')
def _(I, st, args, F, rty, span):
    a = args[0]
    if not isinstance(a, Ref):
        raise NoModel('replace')
    x = I.deref(st, a)
    if len(args) > 1:
        n = args[1]
    else:
        n = TABLE['std::default::Default::default'](I, st, [], {'path': '', 'inst': None}, rty, span)[0].val
    I.write(st, a.cell, a.path, n)
    return R(st, x)


def _panic(msg):
    def f(I, st, args, F, rty, span):
        t = msg
        for a in args:
            v = I.D(st, a) if isinstance(a, (Ref, VRef)) else a
            if isinstance(v, Str) and v.s:
                t = msg + ': ' + v.s
        return [pan(st, t, span)]
    return f


for _n, _t in (('std::panicking::panic', 'panic'), ('std::panicking::panic_fmt', 'panic'), ('std::panicking::panic_display', 'panic'),
               ('std::panicking::panic_explicit', 'panic'), ('std::panicking::unreachable_display', 'unreachable'),
               ('std::panicking::unimplemented_default_msg', 'not implemented'), ('std::panicking::todo_default_msg', 'not implemented'),
               ('std::panicking::todo', 'not implemented'),
               ('std::option::unwrap_failed', 'unwrap of None'), ('std::option::expect_failed', 'expect of None'),
               ('std::result::unwrap_failed', 'unwrap of Err'), ('std::panicking::assert_failed', 'assertion failed'),
               ('std::panicking::assert_failed_inner', 'assertion failed'), ('std::rt::begin_panic', 'panic'),
               ('std::panicking::panic_str_2015', 'panic'), ('std::panicking::panic_bounds_check', 'index out of bounds'),
               ('std::rt::panic_fmt', 'panic'), ('std::panicking::begin_panic', 'panic'),
               ('std::panicking::unreachable_default_msg', 'unreachable'), ('std::process::exit', 'process exit'),
               ('std::process::abort', 'process abort')):
    m(_n)(_panic(_t))


@m('std::io::_print', 'std::io::_eprint')
def _(I, st, args, F, rty, span):
    return R(st, UNIT)


def _opaque(I, st, args, F, rty, span):
    return R(st, I.havoc_ty(rty, st, F['path']) if rty is not None else Top(F['path']))


for _n in ('std::fmt::rt::Argument::new_debug', 'std::fmt::rt::Argument::new_display', 'std::fmt::Arguments::new',
           'std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::new_v1'):
    m(_n)(_opaque)


@m('std::fmt::format', 'std::string::ToString::to_string', 'std::fmt::Arguments::to_string', 'std::str::str::to_string',
   'std::string::String::new', 'std::str::str::to_owned', 'std::string::String::from_utf8_lossy')
def _(I, st, args, F, rty, span):
    if F['path'].endswith('::new'):
        return R(st, Str(''))
    v = I.D(st, args[0]) if args else None
    if isinstance(v, Str):
        return R(st, v)
    if isinstance(v, Int) and v.p.const() is not None:
        return R(st, Str(str(v.p.const())))
    return R(st, Str(None))


@m('std::hint::must_use', 'std::fmt::must_use', 'std::intrinsics::likely', 'std::intrinsics::unlikely', 'std::intrinsics::black_box')
def _(I, st, args, F, rty, span):
    return R(st, args[0])


@m('std::intrinsics::cold_path')
def _(I, st, args, F, rty, span):
    return R(st, UNIT)


@m('std::cmp::Ordering::is_lt', 'std::cmp::Ordering::is_le', 'std::cmp::Ordering::is_gt', 'std::cmp::Ordering::is_ge',
   'std::cmp::Ordering::is_eq', 'std::cmp::Ordering::is_ne')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    if not isinstance(v, Adt):
        raise NoModel('ordering')
    d = v.v - 1
    return R(st, Bool({'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0, 'eq': d == 0, 'ne': d != 0}[F['path'][-2:]]))


@m('std::cmp::Ordering::reverse')
def _(I, st, args, F, rty, span):
    v = I.D(st, args[0])
    return R(st, ORD[-(v.v - 1)])
