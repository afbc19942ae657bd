"""Equality, order and copies of trees (property E01).

For every pair of variants of every type a tree is made of, the implementations
of `PartialEq`, `Ord`, `PartialOrd` and `Clone` are interpreted on two values whose
parts are arbitrary.  A comparison of two corresponding parts is a three-way fork
(by induction for the crate's own types, by documentation for library types); the
result of every path is a row of a decision table over those forks."""
import itertools
import flow, flowlib
import text as T
from flow import Flow, Giveup, RET, PANIC, St, vref
from ast_specs import literals
from eval_run import guarded

TYPES = ('AST', 'Parameter', 'Position', 'Expression', 'Symbol', 'SymbolKind')
TRAITS = ('PartialEq', 'Ord', 'PartialOrd', 'Clone')
METHODS = {'eq': 'PartialEq', 'ne': 'PartialEq', 'cmp': 'Ord', 'partial_cmp': 'PartialOrd', 'lt': 'PartialOrd', 'le': 'PartialOrd', 'gt': 'PartialOrd',
           'ge': 'PartialOrd', 'max': 'Ord', 'min': 'Ord', 'clamp': 'Ord'}
ORDER = {'lt': lambda x: x < 0, 'le': lambda x: x <= 0, 'gt': lambda x: x > 0, 'ge': lambda x: x >= 0, 'eq': lambda x: x == 0, 'ne': lambda x: x != 0}


class Cmp:
    def __init__(self, progs, rep):
        self.P, self.rep = progs['ast'], rep
        cs = set()
        for b in self.P.bodies.values():
            literals(b['body'], cs)
        T.reset(cs)
        self.I = Flow(self.P, {}, {})
        self.I.cut = self.cut
        self.I.rel = self.rel
        for i, t in enumerate(self.I.types):
            if t and t.get('k') == 'adt' and self.I.last(i) == 'Ordering' and len(t.get('variants', ())) == 3 and any(v['name'] == 'Less' for v in t['variants']):
                self.I.ordering_tid = i
        self.known = {}             # value of a part -> (side, part)

    # ---------------------------------------------------------------- parts
    def norm(self, v):
        while v[0] in ('box', 'vref'):
            v = v[1]
        if v[0] not in ('seq', 'it'):
            return v
        # elements by reference are the elements
        return ('seq', tuple(('m', p[1], ((p[2][0][0], (('e', self.norm(p[2][0][1][0][1])),)),)) if p[0] == 'm' and len(p[2]) == 1 and len(p[2][0][1]) == 1 and
                             p[2][0][1][0][0] == 'e' else p for p in v[1]))

    def part(self, name, side, tid):
        """an arbitrary value of a part; a tuple is taken apart"""
        I = self.I
        d = I.types[tid]
        if d['k'] == 'tuple':
            return ('tup', tuple(self.part(name + '.%d' % i, side, t) for i, t in enumerate(d['el'])))
        v = I.opaque((side, name), tid)
        self.known[self.norm(v)] = (side, name)
        self.parts.setdefault(name, tid)
        return v

    def value(self, tid, vi, side):
        I = self.I
        names = [f[0] for f in I.types[tid]['variants'][vi]['fields']]
        return ('adt', tid, vi, tuple(self.part(n, side, t) for n, t in zip(names, I.fields(tid, vi))))

    def rel(self, st, a, b):
        ka, kb = self.known.get(self.norm(a)), self.known.get(self.norm(b))
        if ka is None or kb is None:
            return None
        if ka[0] == kb[0]:
            raise Giveup('compares two parts of one value')
        if ka[1] != kb[1]:
            raise Giveup('compares different parts (%s and %s)' % (ka[1], kb[1]))
        sign = 1 if ka[0] == 'a' else -1
        k = ('rel', ka[1])
        f = st.facts.get(k)
        if f is not None:
            return [(st, sign * f)]
        out = []
        for x in (-1, 0, 1):
            s = st.copy()
            s.facts[k] = x
            out.append((s, sign * x))
        return out

    def cut(self, I, inst, args, st, rty):
        """comparisons of parts: by induction"""
        b = I.P.bodies[inst]
        m = b['name'].split('::')[-1]
        if len(args) == 2 and m in METHODS and b['crate'] == 'sm_ast':
            x, y = I.D(st, args[0]), I.D(st, args[1])
            r = self.rel(st, I.nrm(st, x), I.nrm(st, y))
            if r is None:
                return None
            if m in ORDER:
                return [flow.Out(RET, s, ('i', int(ORDER[m](n)))) for s, n in r]
            if m in ('cmp', 'partial_cmp'):
                return [flow.Out(RET, s, flowlib.ordering(I, rty, n)) for s, n in r]
        return None

    # ---------------------------------------------------------------- tables
    def table(self, inst, x, y, read, what):
        """{assignment of the parts' relations: result} of one function, or None"""
        I, rep = self.I, self.rep
        outs = I.call_body(inst, [vref(x), vref(y)], St())
        rep.paths += len(outs)
        rows = []
        for o in outs:
            if not rep.need(o.kind == RET, what, '%s always answers (%s)' % (what, o.val if o.kind != RET else 'returns')):
                return None
            other = [k for k in o.st.facts if k[0] != 'rel']
            if other:
                rep.bad(what, '%s depends on more than the comparisons of corresponding parts (%s)' % (what, repr(other[0])[:120]))
                return None
            rows += [({k[1]: v for k, v in s.facts.items() if k[0] == 'rel'}, r) for s, r in read(o.st, o.val)]
        return rows

    def lookup(self, rows, a):
        rs = {r for f, r in rows if all(a[k] == v for k, v in f.items())}
        return rs.pop() if len(rs) == 1 else None

    def bools(self, st, v):
        return self.I.truth(st, v)

    def orders(self, st, v):
        v = self.I.D(st, v)
        out = []
        if self.I.last(v[1] if v[0] == 'adt' else v[2]) == 'Option':
            for s, x in self.I.expand(st, v):
                if not x[3]:
                    out.append((s, None))
                else:
                    out += flowlib.order_cases(self.I, s, x[3][0])
            return out
        return flowlib.order_cases(self.I, st, v)


def lexicographic(table, names, fixed=()):
    """order of parts by which the table is lexicographic, or None.  table(a) in {-1, 0, 1}"""
    free = [n for n in names if n not in dict(fixed)]
    rows = []
    for vs in itertools.product((-1, 0, 1), repeat=len(free)):
        a = dict(fixed)
        a.update(zip(free, vs))
        rows.append((a, table(a)))
    if not free:
        return [] if rows[0][1] == 0 else None
    for n in free:
        up = {r for a, r in rows if a[n] > 0}
        down = {r for a, r in rows if a[n] < 0}
        if len(up) == 1 and len(down) == 1 and up != {0} and up == {-x if x is not None else 7 for x in down}:
            rest = lexicographic(table, names, tuple(fixed) + ((n, 0),))
            return None if rest is None else [n] + rest
    return None


def e01(progs, rep):
    E = Cmp(progs, rep)
    I = E.I
    impl = {}
    for i, b in E.P.bodies.items():
        if b['crate'] != 'sm_ast' or not b['name'].startswith('<'):
            continue
        ty, _, m = b['name'][1:].partition(' as ')
        tr, _, m = m.partition('>::')
        tr = tr.split('::')[-1]
        if tr in TRAITS and m in ('clone', 'clone_from', *METHODS):
            impl.setdefault(ty.split('::')[-1], {})[m] = i
    for tn in TYPES:
        tid = I.find_adt(tn)
        if not rep.need(tid is not None and I.types[tid]['k'] == 'adt', tn, 'the type %s is found' % tn):
            continue
        fns = impl.get(tn, {})
        for m in ('eq', 'cmp', 'partial_cmp', 'clone'):
            rep.need(m in fns, '%s %s' % (tn, m), '%s of %s is found' % (m, tn))
        for m in fns:
            if m in ('max', 'min', 'clamp', 'clone_from'):
                rep.bad('%s %s' % (tn, m), '%s of %s is not the provided one (not analysed)' % (m, tn))
        nv = range(len(I.types[tid]['variants']))
        kinds = {}
        for vi in nv:
            for vj in nv:
                def pair(vi=vi, vj=vj):
                    E.known, E.parts = {}, {}
                    x = E.value(tid, vi, 'a')
                    mine = dict(E.parts)
                    E.parts = {}
                    y = E.value(tid, vj, 'b')
                    if vi != vj:
                        # parts of different kinds of value do not correspond
                        E.known = {k: (s, '%s%d:%s' % (s, vi if s == 'a' else vj, n)) for k, (s, n) in E.known.items()}
                    names = sorted(mine) if vi == vj else []
                    what = '%s %s%s' % (tn, I.types[tid]['variants'][vi]['name'], '' if vi == vj else ' / ' + I.types[tid]['variants'][vj]['name'])
                    tabs = {}
                    for m in ('eq', 'ne', 'cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge'):
                        if m in fns:
                            tabs[m] = E.table(fns[m], x, y, E.orders if 'cmp' in m else E.bools, '%s of %s' % (m, what))
                    if any(t is None for t in tabs.values()) or 'eq' not in tabs or 'cmp' not in tabs or 'partial_cmp' not in tabs:
                        return
                    good = {m: True for m in tabs}
                    for vs in itertools.product((-1, 0, 1), repeat=len(names)):
                        a = dict(zip(names, vs))
                        same = vi == vj and all(v == 0 for v in vs)
                        good['eq'] &= E.lookup(tabs['eq'], a) is same
                        c = E.lookup(tabs['cmp'], a)
                        good['cmp'] &= c is not None and (c == 0) == same
                        for m in tabs:
                            if m == 'partial_cmp':
                                good[m] &= c is not None and E.lookup(tabs[m], a) == c
                            elif m in ORDER and m != 'eq':
                                good[m] &= c is not None and E.lookup(tabs[m], a) is ORDER[m](0 if m == 'ne' and same else 1 if m == 'ne' else c)
                    say = {'eq': '%s are equal exactly when they are of one kind and all their parts are equal', 'cmp': '%s compare as equal exactly when they are equal'}
                    for m in tabs:
                        rep.need(good[m], '%s of %s' % (m, what), say.get(m, '%%s: %s agrees with cmp' % m) % what)
                    if not good['cmp']:
                        return
                    if vi == vj:
                        order = lexicographic(lambda a: E.lookup(tabs['cmp'], a), names)
                        rep.need(order is not None, 'order of %s' % what, '%s are ordered by their first different part (%s)' % (what, ', '.join(order or names)))
                    else:
                        kinds[(vi, vj)] = E.lookup(tabs['cmp'], {})
                guarded(rep, '%s %d %d' % (tn, vi, vj), 'comparing values of %s' % tn, pair)
        if all((i, j) in kinds for i in nv for j in nv if i != j):
            wins = sorted(sum(1 for j in nv if j != i and kinds[(i, j)] > 0) for i in nv)
            anti = all(kinds[(i, j)] == -kinds[(j, i)] for i, j in kinds)
            rep.need(anti and wins == list(nv), 'kinds of %s' % tn, 'the kinds of %s are in one fixed order' % tn)
        if 'clone' in fns:
            def dup():
                cut, I.cut, rel, I.rel = I.cut, None, I.rel, None
                try:
                    rep.need(flowlib.clone_ok(I, fns['clone']), 'clone of %s' % tn, 'a copy of a %s has the same kind and the same parts' % tn)
                finally:
                    I.cut, I.rel = cut, rel
            guarded(rep, 'clone of %s' % tn, 'copying a %s' % tn, dup)
    rep.funcs |= set(I.funcs)
