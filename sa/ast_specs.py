"""Properties of the tree builder, evaluator and printers (crate sm-ast)."""
import lang, peg, parser_specs
import flow, flowlib
import text as T
from flow import Flow, Giveup, Out, RET, PANIC, St, S, vref, subst


def literals(x, out):
    """non-ASCII characters in the constants of a dump"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('str', 'char') and isinstance(v, str):
                out.update(v)
            else:
                literals(v, out)
    elif isinstance(x, list):
        for v in x:
            literals(v, out)


def gchars(e):
    if isinstance(e, tuple):
        if e and e[0] in ('str', 'istr') and isinstance(e[1], str):
            yield from e[1]
        elif e and e[0] == 'range':
            yield e[1]
            yield e[2]
        else:
            for x in e:
                yield from gchars(x)


class Lazy(dict):
    def __init__(self, f):
        dict.__init__(self)
        self.f = f

    def get(self, k, d=None):
        if k not in self:
            self[k] = self.f(k)
        v = self[k]
        return d if v is None else v


class Ast:
    """an interpreter for sm-ast together with the token languages of the grammar"""

    def __init__(self, progs, rep):
        self.P = progs['ast']
        self.rep = rep
        x, g, st, sk = parser_specs.load(progs, rep)
        self.g, self.sk = g, sk
        cs = {c for e in g.values() for c in gchars(e)}
        for b in self.P.bodies.values():
            literals(b['body'], cs)
        T.reset(cs)
        self.kids = Lazy(self.kids_of)
        self.langs = Lazy(self.lang_of)
        self.marked, self.reach = {}, {}
        pr = parser_specs.infix_tokens(g, sk)
        self.prim, self.ops = pr if pr else (set(), set())

    def kids_of(self, r):
        if r not in self.g:
            return None
        e = peg.children(self.g, r, self.sk, silent=True)
        A = T.rx(e)
        tr, acc = T.get(A)
        try:
            return T.paths(tr, acc, lambda al: [al], 64)
        except OverflowError:
            raise Giveup('the children of rule %s follow too many patterns' % r)

    def lang_of(self, r):
        if r not in self.g or self.recursive(r):
            return None
        return T.token_language(self.g, self.sk, r)

    def refs(self, r):
        if r not in self.reach:
            out, todo = set(), [self.g[r]]
            while todo:
                e = todo.pop()
                if isinstance(e, (tuple, list)):
                    if e and e[0] == 'ref' and e[1] in self.g:
                        if e[1] not in out:
                            out.add(e[1])
                            todo.append(self.g[e[1]])
                    else:
                        todo.extend(e)
            self.reach[r] = out
        return self.reach[r]

    def recursive(self, r):
        """can a text of rule r contain itself or another recursive construct"""
        return any(q in self.refs(q) for q in self.refs(r) | {r})

    def kid_text(self, r, kinds):
        k = (r, kinds)
        if k not in self.marked:
            self.marked[k] = self._kid_text(r, kinds)
        return self.marked[k]

    def _kid_text(self, r, kinds):
        if self.langs.get(r) is None or len(T.get(self.langs.get(r))[0]) > 60:
            return None
        L = T.token_language(self.g, self.sk, r, marks=True)
        s = ('star', ('set', T.sigma()))
        ms = {a for d in T.get(L)[0] for a in d if a.startswith('<r:')}
        seq = [s]
        for kd in kinds:
            if kd[0] == 'e':
                seq += [('sym', '<r:%s>' % kd[1]), s]
            else:
                seq.append(('star', ('set', T.sigma() | {'<r:%s>' % x for x in kd[1]})))
        L = T.inter(L, T.rx(('seq', seq)))
        for a in ms:
            L = T.rx_erase(L, a)
        return L

    def flow(self, cut=None):
        I = Flow(self.P, self.kids, self.langs)
        I.infix_ops = frozenset(self.ops)
        I.kid_text = self.kid_text
        I.cut = cut
        return I

    # ---------------------------------------------------------------- bodies
    def find(self, suffix, crate='sm_ast'):
        return [i for i, b in self.P.bodies.items() if b['crate'] == crate and b['name'].endswith(suffix)]
