"""Abstract interpreter over the monomorphised MIR dumped by the driver.

Domain: vals.py values whose integers are polynomials over named quantities;
path facts are polynomial equalities / linear inequalities (terms.PC).  Trace
partitioning at branches, recurrence solving at loop heads (loops.py), transfer
functions for library calls (models.py)."""
import sys
from vals import *

sys.setrecursionlimit(20000)


class Giveup(Exception):
    pass


RET, PANIC, BACK, EXIT = 'ret', 'panic', 'back', 'exit'


class Program:
    def __init__(self, d):
        self.d = d
        self.types = d['types']
        self.bodies = {i['id']: i for i in d['instances'] if i['body']}
        self.items = d['items']
        self.generic = {g['name']: g for g in d['generic']}
        self._loops = {}
        self._live = {}
        self._rec = None
        self.statics = {i['name']: i for i in d['items'] if i['kind'] in ('static', 'const')}

    def find(self, last):
        c = [i for i in self.d['instances'] if not i['closure'] and i['crate'] == self.d['crate']
             and i['name'].split('::')[-1] == last]
        return c

    # ------------------------------------------------------------ types
    def ik(self, t):
        """integer kind of type t, or None"""
        T = self.types[t] if isinstance(t, int) else t
        k = T['k']
        if k == 'int':
            return ('i' if T['signed'] else 'u', T['bits'])
        if k == 'char':
            return ('u', 32)
        if k == 'adt':
            if T['adt'] == 'num::BigInt':
                return 'B'
            if T['adt'] == 'num::BigUint':
                return 'U'
        return None

    def strip(self, t):
        T = self.types[t]
        while T['k'] in ('ref', 'ptr'):
            T = self.types[T['el']]
        return T

    def shape(self, t):
        """shape of a sequence element of type t"""
        k = self.ik(t)
        if k is not None:
            return ('int', k)
        T = self.types[t]
        if T['k'] == 'bool':
            return ('bool',)
        if T['k'] == 'tuple':
            return ('tup', tuple(self.shape(x) for x in T['el']))
        if T['k'] == 'ref' and not T['mut']:
            return ('ref', self.shape(T['el']))
        return ('top',)

    # ------------------------------------------------------------ CFG
    def succs(self, blk):
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'drop':
            return [t[2]]
        if k == 'assert':
            return [t[4]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    def loops(self, inst):
        r = self._loops.get(inst)
        if r is None:
            r = self._loops[inst] = self._find_loops(self.bodies[inst]['body'])
        return r

    def _find_loops(self, body):
        B = body['blocks']
        n = len(B)
        seen, back = {}, []
        st = [(0, iter(self.succs(B[0])))]
        seen[0] = 1
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen[y] = 1
                    st.append((y, iter(self.succs(B[y]))))
                    break
                if seen[y] == 1:
                    back.append((x, y))
            else:
                seen[x] = 2
                st.pop()
        preds = {i: [] for i in range(n)}
        for i in seen:
            for y in self.succs(B[i]):
                preds[y].append(i)
        heads = {}
        for x, h in back:
            nodes = heads.setdefault(h, {h})
            w = [x]
            while w:
                y = w.pop()
                if y not in nodes:
                    nodes.add(y)
                    w += preds[y]
        return heads

    def live_in(self, inst):
        r = self._live.get(inst)
        if r is None:
            r = self._live[inst] = self._liveness(self.bodies[inst]['body'])
        return r

    def _liveness(self, body):
        B = body['blocks']
        always = set()
        use, dfn = [], []

        def pl_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in ('copy', 'move'):
                pl_use(o[1], u, d)

        for b in B:
            u, d = set(), set()
            for s in b['s']:
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] == 'ref':
                        pl_use(rv[2], u, d)
                        if rv[1] != 'shared' and not any(e[0] == '*' or e == '*' for e in rv[2][1]):
                            always.add(rv[2][0])
                    elif rv[0] == 'addr':
                        pl_use(rv[-1], u, d)
                        always.add(rv[-1][0])
                    else:
                        for x in rv[1:]:
                            if isinstance(x, list) and x:
                                if x[0] in ('copy', 'move'):
                                    op_use(x, u, d)
                                elif isinstance(x[0], list):
                                    for y in x:
                                        if isinstance(y, list) and y and y[0] in ('copy', 'move'):
                                            op_use(y, u, d)
                                elif isinstance(x[0], int) and len(x) == 2 and isinstance(x[1], list):
                                    pl_use(x, u, d)
                    if s[1][1]:
                        pl_use(s[1], u, d)
                    else:
                        d.add(s[1][0])
            t = b['t']
            if t[0] == 'switch':
                op_use(t[1], u, d)
            elif t[0] == 'assert':
                op_use(t[1], u, d)
            elif t[0] == 'call':
                op_use(t[1], u, d)
                for a in t[2]:
                    op_use(a, u, d)
                if t[3][1]:
                    pl_use(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif t[0] == 'return':
                if 0 not in d:
                    u.add(0)
            use.append(u)
            dfn.append(d)
        live = [set() for _ in B]
        ch = True
        while ch:
            ch = False
            for i in range(len(B) - 1, -1, -1):
                out = set()
                for y in self.succs(B[i]):
                    out |= live[y]
                n = use[i] | (out - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        # address-taken locals live as long as their storage may
        scoped = {s[1] for b in B for s in b['s'] if s[0] in ('live', 'dead')}
        inn = [set() for _ in B]
        seen = {0}
        work = [0]
        while work:
            i = work.pop()
            cur = set(inn[i])
            for s in B[i]['s']:
                if s[0] == 'live':
                    cur.add(s[1])
                elif s[0] == 'dead':
                    cur.discard(s[1])
            for y in self.succs(B[i]):
                if y not in seen or not cur <= inn[y]:
                    seen.add(y)
                    inn[y] |= cur
                    work.append(y)
        return [x | {a for a in always if a not in scoped or a in inn[i]} for i, x in enumerate(live)]

    # ------------------------------------------------------------ call graph
    def callees(self, inst):
        out = set()
        b = self.bodies[inst]['body']
        for blk in b['blocks']:
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                    out.add(self.types[s[2][1][1]].get('inst'))
            t = blk['t']
            if t[0] == 'call':
                f = self.types[t[5]]
                if f.get('inst') in self.bodies:
                    out.add(f['inst'])
            for o in self._ops(blk):
                if o[0] == 'const':
                    T = self.types[o[1]['t']]
                    if T['k'] in ('fndef', 'closure') and T.get('inst') in self.bodies:
                        out.add(T['inst'])
        return {x for x in out if x in self.bodies}

    def _ops(self, blk):
        def walk(x):
            if isinstance(x, list):
                if x and x[0] in ('copy', 'move', 'const') and len(x) == 2:
                    yield x
                else:
                    for y in x:
                        yield from walk(y)
        for s in blk['s']:
            if s[0] == '=':
                yield from walk(s[2])
        t = blk['t']
        if t[0] == 'call':
            yield from walk(t[1:3])
        elif t[0] in ('switch', 'assert'):
            yield from walk(t[1:2])

    def reach(self, inst):
        seen, w = set(), [inst]
        while w:
            x = w.pop()
            for y in self.callees(x):
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return seen

    def recursive(self, inst):
        if self._rec is None:
            self._rec = {}
        if inst not in self._rec:
            self._rec[inst] = inst in self.reach(inst)
        return self._rec[inst]


class Outcome:
    __slots__ = ('st', 'kind', 'val', 'span', 'chain')

    def __init__(self, st, kind, val, span=None, chain=()):
        self.st, self.kind, self.val, self.span, self.chain = st, kind, val, span, chain

    def __repr__(self):
        return 'Outcome(%s,%r,%s)' % (self.kind, self.val, self.span)


class Interp:
    MAXPATH = 4000

    def __init__(self, prog):
        self.P = prog
        self.fid = 0
        self.hid = 0
        self.notes = []             # unmodelled constructs met
        self.summaries = {}         # inst -> active recursion summary
        self.analysed = set()
        self.calls_modelled = {}
        self.budget = 60000
        self.rank_ok = {}
        import models
        import loops
        self.models = models
        import sieve
        self.sieve = sieve
        self.lazy = False           # describe collected lists and sieve tables by formulas
        self.loops = loops

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    # ------------------------------------------------------------ fresh values
    def fresh(self, t, name, st=None):
        """arbitrary value of type t; integers are inputs called `name`"""
        T = self.P.types[t]
        k = self.P.ik(t)
        if k is not None:
            return Int(var(name, k), k)
        kk = T['k']
        if kk == 'bool':
            v = var(name, ('u', 1))
            return Bool(('fl', v, True))
        if kk == 'str':
            return Str(None)
        if kk == 'ref':
            if T['mut'] and st is not None:
                c = self.heap(st, self.fresh(T['el'], name, st))
                return Ref(c)
            return VRef(self.fresh(T['el'], name, st))
        if kk == 'slice' or (kk == 'adt' and T['adt'] in ('std::vec::Vec', 'alloc::vec::Vec')):
            el = T['el'] if kk == 'slice' else T['args'][0]
            n = var('len(%s)' % name, ('u', 63))
            return SSeq(name, 0, n, self.P.shape(el))
        if kk == 'tuple':
            return Tup([self.fresh(x, '%s.%d' % (name, i), st) for i, x in enumerate(T['el'])])
        if kk == 'array' and T.get('n') is not None and isinstance(T.get('n'), int) and T['n'] <= 16:
            return Seq([self.fresh(T['el'], '%s[%d]' % (name, i), st) for i in range(T['n'])])
        if kk == 'adt' and T['kind'] == 'struct' and T['crate'] == self.P.d['crate']:
            v = T['variants'][0]
            if all(f[1] is not None for f in v['fields']):
                return Adt(T['adt'], 0, None, [self.fresh(f[1], '%s.%s' % (name, f[0]), st) for f in v['fields']])
        return Top('input %s' % name)

    def havoc_ty(self, t, st, why):
        """unknown value of type t"""
        T = self.P.types[t]
        k = self.P.ik(t)
        if k is not None:
            return Int(st.sk(k), k)
        kk = T['k']
        if kk == 'bool':
            return Bool(('fl', st.sk(('u', 1)), True))
        if kk == 'tuple':
            return Tup([self.havoc_ty(x, st, why) for x in T['el']])
        if kk == 'ref' and not T['mut']:
            return VRef(self.havoc_ty(T['el'], st, why))
        if kk == 'str':
            return Str(None)
        return Top(why)

    def heap(self, st, v):
        self.hid += 1
        c = ('h', self.hid)
        st.cells[c] = v
        return c

    # ------------------------------------------------------------ paths
    def getp(self, st, v, path):
        for e in path:
            while isinstance(v, (Ref, VRef)) and e[0] != '*':
                break
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == 'f':
            if isinstance(v, (Adt, Tup, Clo)):
                if e[1] < len(v.fs):
                    return v.fs[e[1]]
                return Top('field')
            if isinstance(v, Bx):
                return v
            if isinstance(v, It):
                return self.models.it_field(self, v, e[1])
            return self.havoc_ty(e[2], st, 'field of unknown') if len(e) > 2 and e[2] is not None else Top('field')
        if k == 'v':
            return v
        if k == '*':
            return self.deref(st, v)
        if k in ('ix', 'i', 'c', 's', 'key'):
            if k == 'key':
                return self.models.map_at(self, st, v, e[1])
            return self.seq_at(st, v, e[1])
        raise Giveup('projection %r' % (e,))

    def deref(self, st, v):
        if isinstance(v, VRef):
            return v.v
        if isinstance(v, Ref):
            return self.getp(st, st.cells.get(v.cell, Top('dead cell')), v.path)
        if isinstance(v, Bx):
            return st.cells.get(v.cell, Top('box'))
        return v if isinstance(v, Top) else Top('deref of %r' % (v,))

    def D(self, st, v):
        while isinstance(v, (Ref, VRef, Bx)):
            v = self.deref(st, v)
        return v

    def setp(self, st, v, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        k = e[0]
        if k == 'v':
            return self.setp(st, v, rest, new)
        if k == 'f':
            if isinstance(v, (Adt, Tup, Clo)) and e[1] < len(v.fs):
                fs = list(v.fs)
                fs[e[1]] = self.setp(st, fs[e[1]], rest, new)
                if isinstance(v, Adt):
                    return Adt(v.name, v.v, v.vn, fs)
                return Tup(fs) if isinstance(v, Tup) else Clo(v.inst, fs, v.dn)
            return Top('write to field of %r' % (v,))
        if k in ('ix', 'i', 'c'):
            return self.seq_set(st, v, e[1], lambda old: self.setp(st, old, rest, new))
        if k == 'key':
            return self.models.map_set(self, st, v, e[1], lambda old: self.setp(st, old, rest, new))
        return Top('write through %r' % (e,))

    def write(self, st, cell, path, new):
        if not path:
            st.cells[cell] = new
        else:
            old = st.cells.get(cell, Top('uninit'))
            if isinstance(old, Top) and old.why == 'box-uninit':
                st.cells[cell] = new
            else:
                st.cells[cell] = self.setp(st, old, path, new)

    # sequences ---------------------------------------------------------
    def seq_len(self, v):
        if isinstance(v, Seq):
            return P.c(len(v.vs))
        if isinstance(v, SSeq):
            return v.n + len(v.tail)
        if isinstance(v, LSeq):
            return v.len()
        if isinstance(v, Str) and v.s is not None:
            return P.c(len(v.s.encode()))
        return None

    def el(self, base, idx, shape):
        k = shape[0]
        if k == 'int':
            return Int(mk_el(base, idx, shape[1]), shape[1])
        if k == 'bool':
            return Bool(('fl', mk_el(base, idx, ('u', 1)), True))
        if k == 'tup':
            return Tup([self.el('%s.%d' % (base, i), idx, s) for i, s in enumerate(shape[1])])
        if k == 'ref':
            return VRef(self.el(base, idx, shape[1]))
        return Top('element of %s' % base)

    def seq_at(self, st, v, idx):
        idx = st.pc.norm(idx)
        c = idx.const()
        if isinstance(v, Seq):
            if c is not None and 0 <= c < len(v.vs):
                return v.vs[c]
            if v.vs and all(x is v.vs[0] for x in v.vs):
                return v.vs[0]
            return Top('index %s of concrete sequence' % idx)
        if isinstance(v, SSeq):
            if v.tail:
                d = st.pc.norm(idx - v.n).const()
                if d is not None and 0 <= d < len(v.tail):
                    return v.tail[d]
                if not st.pc.ge(v.n - 1 - idx):
                    return Top('index beyond known part')
            self.instantiate(st, v.base, v.off + idx)
            return self.el(v.base, v.off + idx, v.shape)
        if isinstance(v, LSeq):
            return self.sieve.lseq_at(self, st, v, idx)
        return Top('index of %r' % (v,))

    def seq_set(self, st, v, idx, f):
        c = st.pc.norm(idx).const()
        if isinstance(v, Seq) and c is not None and 0 <= c < len(v.vs):
            vs = list(v.vs)
            vs[c] = f(vs[c])
            return Seq(vs)
        if isinstance(v, SSeq):
            d = st.pc.norm(idx - v.n).const()
            if d is not None and 0 <= d < len(v.tail):
                t = list(v.tail)
                t[d] = f(t[d])
                return SSeq(v.base, v.off, v.n, v.shape, t)
            # unknown contents, same length
            NEXT_SK[0] += 1
            return SSeq('w%d' % NEXT_SK[0], 0, v.n + len(v.tail), v.shape)
        return Top('write to %r' % (v,))

    def instantiate(self, st, base, idx):
        """add the inequality facts known for every index of `base`"""
        pc = st.pc
        for (katom, lo, hi, facts, seqs) in pc.alls:
            offs = seqs.get(base)
            if not offs:
                continue
            for c in offs:
                k = idx - c
                if not (pc.ge(k - lo) and pc.ge(hi - 1 - k)):
                    continue
                for f in facts:
                    if f[0] == 'eq':
                        continue
                    g = subst(f[1], {katom: k}, deep=True)
                    pc.add_fact((f[0], g))

    # ------------------------------------------------------------ operands
    def const(self, st, c, t):
        """value of a constant"""
        ty = self.P.types[t]
        k = self.P.ik(t)
        if 'int' in c:
            return Int(int(c['int']), k)
        if 'char' in c:
            return Int(ord(c['char']) if isinstance(c['char'], str) else int(c['char']), ('u', 32))
        if 'bool' in c:
            return Bool(c['bool'])
        if 'str' in c:
            s = Str(c['str'])
            return s if ty['k'] == 'str' else VRef(s)
        if 'tuple' in c:
            return Tup([self.const(st, x['v'] if 'v' in x and 't' in x else x, tt) for x, tt in zip(c['tuple'], ty['el'])])
        if 'array' in c:
            el = ty.get('el')
            return Seq([self.const(st, x['v'] if 'v' in x and 't' in x else x, el) for x in c['array']])
        if 'ref' in c:
            el = ty.get('el')
            x = c['ref']
            if ty['k'] == 'ref':
                et = self.P.types[el]
                if et['k'] == 'slice' and isinstance(x, dict) and 'array' in x:
                    return VRef(Seq([self.const(st, y, et['el']) for y in x['array']]))
            return VRef(self.const(st, x, el))
        if 'adt' in c or 'variant' in c:
            vi = c.get('variant') or 0
            vd = ty['variants'][vi]
            fs = []
            for x, f in zip(c.get('fields', []), vd['fields']):
                fs.append(self.const(st, x, f[1]) if f[1] is not None else Top('const field'))
            return Adt(ty['adt'], vi, vd['name'], fs)
        if 'zst' in c:
            return self.zst(t)
        if 'fn' in c:
            return Fn(ty)
        return Top('constant %s' % list(c))

    def zst(self, t):
        T = self.P.types[t]
        k = T['k']
        if k == 'fndef':
            return Fn(T)
        if k == 'closure':
            return Clo(T.get('inst'), (), T.get('def'))
        if k == 'tuple':
            return Tup([self.zst(x) for x in T['el']])
        if k == 'array':
            return Seq(())
        if k == 'adt':
            vs = T['variants']
            if len(vs) == 1:
                return Adt(T['adt'], 0, vs[0]['name'] if T['kind'] == 'enum' else None,
                           [self.zst(f[1]) if f[1] is not None else Top('zst') for f in vs[0]['fields']])
        return Top('zst %s' % T.get('text', k))

    def operand(self, fr, st, o):
        if o[0] in ('copy', 'move'):
            return self.read(fr, st, o[1])
        if o[0] == 'const':
            return self.const(st, o[1]['v'], o[1]['t'])
        if o[0] == 'rtc':
            return Bool(True)
        raise Giveup('operand %r' % (o,))

    def norm_proj(self, fr, st, e):
        if e == '*' or e[0] == '*':
            return ('*',)
        if e[0] == 'i':
            i = st.cells.get((fr, e[1]), Top('idx'))
            return ('ix', i.p if isinstance(i, Int) else st.sk(('u', 64)))
        if e[0] == 'c':
            return ('cix', e[1], e[2], e[3])
        if e[0] == 's':
            return ('sub',) + tuple(e[1:])
        return tuple(e)

    def read(self, fr, st, place):
        v = st.cells.get((fr, place[0]))
        if v is None:
            v = Top('uninitialised')
        for e in place[1]:
            e = self.norm_proj(fr, st, e)
            if e[0] == 'cix':
                n = self.seq_len(v)
                if n is None:
                    v = Top('const index')
                    continue
                v = self.seq_at(st, v, n - e[1] if e[3] else P.c(e[1]))
            elif e[0] == 'sub':
                v = self.subslice(st, v, e[1], e[2], e[3])
            else:
                v = self.proj(st, v, e)
        return v

    def subslice(self, st, v, a, b, fromend):
        n = self.seq_len(v)
        if n is None:
            return Top('subslice')
        hi = n - b if fromend else P.c(b)
        return self.slice(st, v, P.c(a), hi)

    def slice(self, st, v, lo, hi):
        """v[lo..hi] (bounds already checked)"""
        lo, hi = st.pc.norm(lo), st.pc.norm(hi)
        if isinstance(v, Seq):
            a, b = lo.const(), hi.const()
            if a is not None and b is not None:
                return Seq(v.vs[a:b])
            return Top('symbolic slice of concrete sequence')
        if isinstance(v, SSeq):
            if v.tail:
                if st.pc.ge(v.n - hi):
                    return SSeq(v.base, v.off + lo, hi - lo, v.shape)
                d = st.pc.norm(hi - v.n).const()
                if d is not None and st.pc.ge(v.n - lo):
                    return SSeq(v.base, v.off + lo, v.n - lo, v.shape, v.tail[:d])
                return Top('slice across tail')
            return SSeq(v.base, v.off + lo, hi - lo, v.shape)
        if isinstance(v, LSeq):
            return self.sieve.lslice(self, st, v, lo, hi)
        return Top('slice of %r' % (v,))

    def lvalue(self, fr, st, place):
        """(cell, path) | ('val', v) for places behind shared references"""
        cell, path = (fr, place[0]), []
        val = None
        for e in place[1]:
            e = self.norm_proj(fr, st, e)
            if e[0] == '*':
                cur = val if val is not None else self.getp(st, st.cells.get(cell, Top('uninit')), path)
                if isinstance(cur, Ref):
                    cell, path, val = cur.cell, list(cur.path), None
                elif isinstance(cur, VRef):
                    val = cur.v
                elif isinstance(cur, Bx):
                    cell, path, val = cur.cell, [], None
                else:
                    val = Top('deref')
            elif val is not None:
                if e[0] == 'cix':
                    n = self.seq_len(val)
                    val = self.seq_at(st, val, n - e[1] if e[3] else P.c(e[1])) if n is not None else Top('cix')
                elif e[0] == 'sub':
                    val = self.subslice(st, val, e[1], e[2], e[3])
                else:
                    val = self.proj(st, val, e)
            elif e[0] == 'cix':
                cur = self.getp(st, st.cells.get(cell, Top('uninit')), path)
                n = self.seq_len(cur)
                if n is None:
                    val = Top('cix')
                else:
                    path.append(('ix', n - e[1] if e[3] else P.c(e[1])))
            elif e[0] == 'sub':
                val = Top('mutable subslice')
            else:
                path.append(e)
        if val is not None:
            return ('val', val)
        return (cell, tuple(path))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv, dty):
        """list of (state, value)"""
        k = rv[0]
        if k == 'use':
            return [(st, self.operand(fr, st, rv[1]))]
        if k == 'usep':
            return [(st, self.read(fr, st, rv[1]))]
        if k == 'ref':
            lv = self.lvalue(fr, st, rv[2])
            if rv[1] == 'shared' or rv[1] == 'fake':
                if lv[0] == 'val':
                    return [(st, VRef(lv[1]))]
                return [(st, VRef(self.getp(st, st.cells.get(lv[0], Top('uninit')), lv[1])))]
            if lv[0] == 'val':
                return [(st, VRef(lv[1]) if not isinstance(lv[1], Top) else Top('mutable reference'))]
            return [(st, Ref(lv[0], lv[1]))]
        if k == 'addr':
            lv = self.lvalue(fr, st, rv[-1])
            return [(st, Ref(lv[0], lv[1]) if lv[0] != 'val' else VRef(lv[1]))]
        if k in ('bin', 'cbin'):
            a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            return self.binop(st, rv[1], a, b, rv[4], k == 'cbin')
        if k == 'un':
            a = self.operand(fr, st, rv[2])
            if rv[1] == 'Not':
                if isinstance(a, Bool):
                    return [(st, Bool(f_not(a.f)))]
                ik = self.P.ik(rv[3])
                if ik and isinstance(a, Int):
                    return [(st, Int(-a.p - 1 if ik[0] == 'i' else P.c(ty_range(ik)[1]) - a.p, ik))]
            if rv[1] == 'Neg' and isinstance(a, Int):
                return [(st, Int(-a.p, a.ty))]
            if rv[1] == 'PtrMetadata':
                n = self.seq_len(self.D(st, a))
                if n is not None:
                    return [(st, Int(n, ('u', 64)))]
            return [(st, self.havoc_ty(dty, st, 'unop %s' % rv[1]))]
        if k == 'cast':
            return self.cast(st, rv[1], self.operand(fr, st, rv[2]), rv[3], rv[4])
        if k == 'disc':
            v = self.read(fr, st, rv[1])
            if isinstance(v, Adt):
                return [(st, Int(self.disc_of(v, rv[2] if len(rv) > 2 else None), ('i', 64)))]
            if isinstance(v, It):
                raise Giveup('discriminant of iterator')
            return [(st, Top('discriminant'))]
        if k == 'len':
            n = self.seq_len(self.read(fr, st, rv[1]))
            return [(st, Int(n if n is not None else st.sk(('u', 63)), ('u', 64)))]
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 4096:
                return [(st, Seq([v] * n))]
            return [(st, Top('array repeat'))]
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in rv[2]]
            kk = rv[1][0]
            if kk == 'array':
                return [(st, Seq(ops))]
            if kk == 'tuple':
                return [(st, Tup(ops))]
            if kk == 'adt':
                T = self.P.types[rv[1][1]]
                vi = rv[1][2]
                if T['kind'] == 'union':
                    return [(st, ops[0] if ops else Top('union'))]
                return [(st, Adt(T['adt'], vi, T['variants'][vi]['name'] if T['kind'] == 'enum' else None, ops))]
            if kk == 'closure':
                T = self.P.types[rv[1][1]]
                return [(st, Clo(T.get('inst'), ops, T.get('def')))]
            return [(st, Top('aggregate %s' % kk))]
        return [(st, self.havoc_ty(dty, st, 'rvalue %s' % k))]

    def disc_of(self, v, t=None):
        if t is not None:
            T = self.P.types[t]
            if T['k'] == 'adt':
                d = T['variants'][v.v]['disc']
                if d is not None:
                    return int(d)
        if v.name == 'std::cmp::Ordering':
            return v.v - 1
        return v.v

    def cmp_formula(self, op, a, b):
        d = a - b
        return {'Lt': lambda: f_ge(-d - 1), 'Le': lambda: f_ge(-d), 'Gt': lambda: f_ge(d - 1), 'Ge': lambda: f_ge(d),
                'Eq': lambda: f_eq(d), 'Ne': lambda: f_not(f_eq(d))}[op]()

    def binop(self, st, op, a, b, t, checked):
        ik = self.P.ik(t)
        a, b = (self.D(st, a) if not isinstance(a, Ref) else a), (self.D(st, b) if not isinstance(b, Ref) else b)
        if isinstance(a, Bool) and isinstance(b, Bool):
            A, B = a.f, b.f
            if op == 'BitAnd':
                return [(st, Bool(f_and(A, B)))]
            if op == 'BitOr':
                return [(st, Bool(f_or(A, B)))]
            if op in ('BitXor', 'Ne'):
                return [(st, Bool(f_or(f_and(A, f_not(B)), f_and(f_not(A), B))))]
            if op == 'Eq':
                return [(st, Bool(f_or(f_and(A, B), f_and(f_not(A), f_not(B)))))]
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            if isinstance(a, Int) and isinstance(b, Int):
                return [(st, Bool(self.cmp_formula(op, a.p, b.p)))]
            return [(st, Bool(('fl', st.sk(('u', 1)), True)))]
        if not (isinstance(a, Int) and isinstance(b, Int)):
            if op == 'Cmp':
                return [(st, Top('three-way compare'))]
            r = Int(st.sk(a.ty if isinstance(a, Int) else ('u', 64)), a.ty if isinstance(a, Int) else ('u', 64))
            return [(st, Tup([r, Bool(('fl', st.sk(('u', 1)), True))]) if checked else r)]
        ty = a.ty
        base = op.replace('Unchecked', '')
        lo, hi = ty_range(ty)
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Mul' and self.lazy:
                self.sieve.product_facts(st, a.p, b.p)
            p = {'Add': lambda: a.p + b.p, 'Sub': lambda: a.p - b.p, 'Mul': lambda: a.p * b.p}[base]()
            if checked:
                return [(st, Tup([Int(p, ty), Bool(f_or(f_ge(P.c(lo) - p - 1), f_ge(p - hi - 1)))]))]
            if op.endswith('Unchecked'):
                return [(st, Int(p, ty))]
            return self.wrap(st, p, ty)
        if base in ('Div', 'Rem'):
            q = self.quot(st, a.p, b.p)
            return [(st, Int(q if base == 'Div' else a.p - b.p * q, ty))]
        if base in ('Shl', 'Shr'):
            c = st.pc.norm(b.p).const()
            if c is not None and 0 <= c < 4096:
                if base == 'Shr':
                    return [(st, Int(mk_fdiv(st.pc.norm(a.p), P.c(1 << c)), ty))]
                return self.wrap(st, a.p * (1 << c), ty)
            if base == 'Shl' and st.pc.norm(a.p).const() is not None:
                return self.wrap(st, a.p * mk_pow(P.c(2), b.p), ty)
        if base == 'BitAnd':
            for x, y in ((a.p, b.p), (b.p, a.p)):
                c = st.pc.norm(y).const()
                if c is not None and c >= 0 and (c & (c + 1)) == 0:
                    x = st.pc.norm(x)
                    return [(st, Int(x - (c + 1) * mk_fdiv(x, P.c(c + 1)), ty))]
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            ca, cb = st.pc.norm(a.p).const(), st.pc.norm(b.p).const()
            if ca is not None and cb is not None:
                r = ca & cb if base == 'BitAnd' else ca | cb if base == 'BitOr' else ca ^ cb
                return [(st, Int(r, ty))]
        if op == 'Cmp':
            out = []
            for s2, i in self.models.three_way(self, st, a.p, b.p):
                out.append((s2, ORD[i]))
            return out
        return [(st, Int(st.sk(ty), ty))]

    def quot(self, st, a, b):
        pc = st.pc
        a, b = pc.norm(a), pc.norm(b)
        ca, cb = a.const(), b.const()
        if ca is not None and cb:
            return P.c(tdivc(ca, cb))
        f = mk_fdiv(a, b)
        if single_atom(f) is None or ATOMS[single_atom(f)][0] != 'fdiv':
            if pc.eq(a - b * f):
                return f
        if pc.ge(a) and pc.ge(b - 1):
            return f
        if pc.eq(a - b * f):
            return f
        return mk_tdiv(a, b)

    def wrap(self, st, p, ty):
        """list of (state, value): p reduced to the machine type ty"""
        lo, hi = ty_range(ty)
        out = []
        if lo is None and hi is None:
            return [(st, Int(p, ty))]
        for pc in assume(st.pc, f_and(f_ge(p - lo), f_ge(P.c(hi) - p)) if hi is not None else f_ge(p - lo)):
            s2 = st.copy()
            s2.pc = pc
            out.append((s2, Int(p, ty)))
        m = 1 << ty[1] if hi is not None else 0
        for d, f in ((m, f_ge(P.c(lo) - p - 1)), (-m, f_ge(p - hi - 1))):
            for pc in assume(st.pc, f):
                s2 = st.copy()
                s2.pc = pc
                q = p + d
                if pc.ge(q - lo) and pc.ge(P.c(hi) - q):
                    out.append((s2, Int(q, ty)))
                elif ty[0] == 'u':
                    out.append((s2, Int(p - m * mk_fdiv(p, P.c(m)), ty)))
                else:
                    out.append((s2, Int(s2.sk(ty), ty)))
        return out

    def cast(self, st, kind, v, fr, to):
        ik = self.P.ik(to)
        if kind.startswith('IntToInt') or kind in ('IntToFloat', 'FloatToInt'):
            if kind != 'IntToInt':
                self.note('floating-point conversion')
                return [(st, self.havoc_ty(to, st, kind))]
            if isinstance(v, Bool):
                out = []
                for b in (True, False):
                    for pc in assume(st.pc, v.f if b else f_not(v.f)):
                        s2 = st.copy()
                        s2.pc = pc
                        out.append((s2, Int(int(b), ik)))
                return out
            if isinstance(v, Int):
                return self.wrap(st, v.p, ik)
            if isinstance(v, Adt) and not v.fs:
                return [(st, Int(self.disc_of(v, fr), ik))]
            return [(st, self.havoc_ty(to, st, 'cast'))]
        if 'BoxDerefTransmute' in kind or kind.startswith('Transmute') or kind.startswith('PtrToPtr'):
            if isinstance(v, Bx):
                return [(st, Ref(v.cell))]
            if isinstance(v, (Ref, VRef)) and self.P.types[to]['k'] in ('ptr', 'ref'):
                return [(st, v)]
            if isinstance(v, Int) and ik:
                return self.wrap(st, v.p, ik)
            return [(st, self.havoc_ty(to, st, 'transmute'))]
        return [(st, v)]        # pointer coercions: unsize, reify, closure-to-fn

    # ------------------------------------------------------------ calls
    def call_value(self, f, args, st, span):
        """call a closure / fn item value with already unpacked args"""
        f = self.D(st, f) if isinstance(f, (VRef, Bx)) else f
        if isinstance(f, Ref):
            g = self.D(st, f)
            if isinstance(g, Clo):
                return self.call_closure(g, f, args, st, span)
            f = g
        if isinstance(f, Clo):
            return self.call_closure(f, None, args, st, span)
        if isinstance(f, Fn):
            return self.call_fn(f.ty, args, None, st, span)
        self.note('call of unknown function value %r' % (f,))
        return [Outcome(st, RET, Top('unknown call'))]

    def call_closure(self, clo, ref, args, st, span):
        if clo.inst not in self.P.bodies:
            self.note('closure body unavailable: %s' % clo.dn)
            return [Outcome(st, RET, Top('closure'))]
        b = self.P.bodies[clo.inst]['body']
        et = self.P.types[b['locals'][1]]
        if et['k'] == 'ref':
            if ref is None:
                ref = Ref(self.heap(st, clo)) if et['mut'] else VRef(clo)
            env = ref
        else:
            env = clo
        if b.get('spread') is not None:
            args = [Tup(args)]
        return self.call(clo.inst, [env] + list(args), st, span)

    def call_fn(self, F, args, rty, st, span):
        inst = F.get('inst')
        if rty is None:
            rty = F.get('ret')
        m = self.models.lookup(F)
        if m is None and F['path'] in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call') and len(args) == 2:
            a = args[1]
            return self.call_value(args[0], list(a.fs) if isinstance(a, Tup) else [a], st, span)
        if m is None and inst in self.P.bodies:
            return self.call(inst, args, st, span)
        if m is None:
            ctor = self.ctor(F, rty)
            if ctor is not None:
                return [Outcome(st, RET, ctor(args))]
            self.note('call of unmodelled function %s' % F['path'])
            for a in args:
                if isinstance(a, Ref):
                    self.write(st, a.cell, a.path, Top('changed by %s' % F['path']))
            v = self.havoc_ty(rty, st, 'result of %s' % F['path']) if rty is not None else Top(F['path'])
            return [Outcome(st, RET, v)]
        self.calls_modelled[F['path']] = self.calls_modelled.get(F['path'], 0) + 1
        try:
            r = m(self, st, args, F, rty, span)
        except self.models.NoModel as e:
            if inst in self.P.bodies:
                return self.call(inst, args, st, span)
            self.note('call of %s: %s' % (F['path'], e))
            for a in args:
                if isinstance(a, Ref):
                    self.write(st, a.cell, a.path, Top('changed by %s' % F['path']))
            v = self.havoc_ty(rty, st, 'result of %s' % F['path']) if rty is not None else Top(F['path'])
            return [Outcome(st, RET, v)]
        return r

    def ctor(self, F, rty):
        if rty is None:
            return None
        T = self.P.types[rty]
        if T['k'] == 'adt' and F.get('iname', '').split('::')[-1]:
            last = F['path'].split('::')[-1]
            for i, v in enumerate(T['variants']):
                if v['name'] == last and T['adt'].split('::')[-1] in F['path']:
                    return lambda args: Adt(T['adt'], i, v['name'] if T['kind'] == 'enum' else None, args)
        return None

    def call(self, inst, args, st, span=None):
        if self.P.recursive(inst) and inst not in self.summaries:
            return self.loops.recursion(self, inst, args, st, span)
        if inst in self.summaries and self.summaries[inst] is not None:
            return self.summaries[inst].apply(self, args, st, span)
        return self.call_body(inst, args, st, span)

    def call_body(self, inst, args, st, span=None):
        b = self.P.bodies[inst]['body']
        if len(st.stack) > 60:
            raise Giveup('call depth')
        self.analysed.add(inst)
        self.fid += 1
        fr = self.fid
        st = st.copy()
        st.stack = st.stack + ((inst, span),)
        if len(args) != b['argc'] and b['argc'] == 2 and b.get('spread') is None:
            pass
        if b.get('spread') is not None:
            args = list(args)
        for i, a in enumerate(args):
            st.cells[(fr, i + 1)] = a
        outs = self.explore(inst, fr, st, 0, None)
        res = []
        for o in outs:
            if o.kind == RET:
                o.st.stack = o.st.stack[:-1]
                for l in range(len(b['locals'])):
                    o.st.cells.pop((fr, l), None)
            res.append(o)
        return res

    # ------------------------------------------------------------ exploration
    def explore(self, inst, fr, st, block, loop):
        """loop: None or (head, nodes): stop at head (BACK) and outside nodes (EXIT)"""
        body = self.P.bodies[inst]['body']
        heads = self.P.loops(inst)
        work = [(st, block, True)]
        out = []
        while work:
            st, b, first = work.pop()
            if loop is not None and not first:
                if b == loop[0]:
                    out.append(Outcome(st, BACK, b))
                    continue
                if b not in loop[1]:
                    out.append(Outcome(st, EXIT, b))
                    continue
            if b in heads and not (loop is not None and b == loop[0]):
                live = self.P.live_in(inst)[b]
                for k in [k for k in st.cells if k[0] == fr and k[1] not in live]:
                    del st.cells[k]
                for o in self.run_cfg_loop(inst, fr, st, b, heads[b], live):
                    if o.kind == EXIT:
                        if loop is not None and o.val == loop[0]:
                            out.append(Outcome(o.st, BACK, o.val))
                        elif loop is not None and o.val not in loop[1]:
                            out.append(o)
                        else:
                            work.append((o.st, o.val, False))
                    else:
                        out.append(o)
                continue
            self.budget -= 1
            if self.budget < 0:
                raise Giveup('analysis budget exhausted')
            for r in self.block(inst, fr, st, body, b):
                if isinstance(r, Outcome):
                    out.append(r)
                else:
                    work.append((r[0], r[1], False))
        return out

    def run_cfg_loop(self, inst, fr, st, head, nodes, live):
        def step(s):
            outs = self.explore(inst, fr, s, head, (head, nodes))
            for o in outs:
                if o.kind == BACK:
                    for k in [k for k in o.st.cells if k[0] == fr and k[1] not in live]:
                        del o.st.cells[k]
            return outs
        return self.loops.run(self, st, step, '%s bb%d' % (self.P.bodies[inst]['name'], head))

    def assign(self, fr, st, place, v):
        lv = self.lvalue(fr, st, place)
        if lv[0] == 'val':
            if not isinstance(lv[1], Top):
                self.note('write through shared reference')
            return
        self.write(st, lv[0], lv[1], v)

    def place_ty(self, body, place):
        """static type of a place (None when unknown)"""
        t = body['locals'][place[0]]
        for e in place[1]:
            if e == '*' or e[0] == '*':
                T = self.P.types[t]
                t = T.get('el')
                if t is None and T.get('k') == 'adt' and T['args']:
                    t = T['args'][0]
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'c'):
                t = self.P.types[t].get('el')
            if t is None:
                return None
        return t

    def block(self, inst, fr, st, body, b):
        blk = body['blocks'][b]
        states = [st]
        for s in blk['s']:
            nxt = []
            for x in states:
                if s[0] == '=':
                    dty = self.place_ty(body, s[1])
                    for s2, v in self.rvalue(fr, x, s[2], dty):
                        self.assign(fr, s2, s[1], v)
                        nxt.append(s2)
                elif s[0] == 'setdisc':
                    self.note('set-discriminant statement')
                    nxt.append(x)
                else:
                    nxt.append(x)
            states = nxt
            if len(states) > 64:
                raise Giveup('too many states')
        out = []
        for x in states:
            for r in self.term(inst, fr, x, body, blk['t']):
                if isinstance(r, Outcome) and r.kind == 'again':
                    # the iterator dropped an element: the call is made again
                    if b not in self.P.loops(inst) or any(s[0] == '=' and s[2][0] not in ('ref', 'addr') for s in blk['s']):
                        raise Giveup('filtered iterator advanced outside a loop head')
                    r = (r.st, b)
                out.append(r)
        return out

    def chain(self, st):
        return tuple(st.stack)

    def fork(self, st, f):
        """states refining st by formula f"""
        r = []
        for pc in assume(st.pc, f):
            s2 = st.copy()
            s2.pc = pc
            r.append(s2)
        return r

    def term(self, inst, fr, st, body, t):
        k = t[0]
        if k == 'goto':
            return [(st, t[1])]
        if k == 'return':
            v = st.cells.get((fr, 0), UNIT)
            return [Outcome(st, RET, v)]
        if k == 'drop':
            return [(st, t[2])]
        if k in ('unreachable', 'resume'):
            if k == 'unreachable' and not st.pc.trace:
                return []
            return []
        if k == 'switch':
            v = self.operand(fr, st, t[1])
            out = []
            if isinstance(v, Bool):
                for val, tgt in t[2]:
                    for s2 in self.fork(st, v.f if int(val) else f_not(v.f)):
                        out.append((s2, tgt))
                if t[3] is not None:
                    vals = {int(x[0]) for x in t[2]}
                    for b in (0, 1):
                        if b not in vals:
                            for s2 in self.fork(st, v.f if b else f_not(v.f)):
                                out.append((s2, t[3]))
                return out
            if isinstance(v, Int):
                c = st.pc.norm(v.p).const()
                rng = ty_range(v.ty) if v.ty not in ('B', 'U') else (None, None)
                rest = st
                for val, tgt in t[2]:
                    val = int(val)
                    if rng[1] is not None and val > rng[1]:
                        val -= 1 << v.ty[1]
                    if c is not None:
                        if c == val or (rng[0] is not None and (c - val) % (1 << v.ty[1]) == 0):
                            return [(st, tgt)]
                        continue
                    for s2 in self.fork(rest, f_eq(v.p - val)):
                        out.append((s2, tgt))
                    if rest is not None:
                        r = self.fork(rest, f_not(f_eq(v.p - val)))
                        if not r:
                            return out
                        rest = r[0]
                if t[3] is not None:
                    out.append((rest, t[3]))
                return out
            tg = [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
            return [(st.copy(), x) for x in tg if body['blocks'][x]['t'][0] != 'unreachable' or body['blocks'][x]['s']]
        if k == 'assert':
            v = self.operand(fr, st, t[1])
            out = []
            f = v.f if isinstance(v, Bool) else ('fl', st.sk(('u', 1)), True)
            if not t[2]:
                f = f_not(f)
            if t[3][0] == 'other' and ('PointerDereference' in str(t[3]) or 'Misaligned' in str(t[3]) or 'NullReference' in str(t[3])):
                return [(st, t[4])]
            for s2 in self.fork(st, f_not(f)):
                out.append(Outcome(s2, PANIC, 'assert ' + str(t[3]), t[5], self.chain(s2)))
            for s2 in self.fork(st, f):
                out.append((s2, t[4]))
            return out
        if k == 'call':
            F = self.P.types[t[5]]
            args = [self.operand(fr, st, a) for a in t[2]]
            rty = self.place_ty(body, t[3])
            if F['k'] == 'fndef':
                outs = self.call_fn(F, args, rty, st, t[6])
            else:
                fv = self.operand(fr, st, t[1])
                outs = self.call_value(fv, args, st, t[6])
            res = []
            for o in outs:
                if o.kind == RET:
                    if t[4] is None:
                        continue
                    self.assign(fr, o.st, t[3], o.val)
                    res.append((o.st, t[4]))
                else:
                    if o.span is None:
                        o.span = t[6]
                    if not o.chain:
                        o.chain = self.chain(st)
                    res.append(o)
            return res
        raise Giveup('terminator %s' % k)
