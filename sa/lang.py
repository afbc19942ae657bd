"""Finite automata over arbitrary hashable symbols, built from regular
expressions ('sym', a) ('set', frozenset) ('seq', [..]) ('alt', [..])
('star', e) ('eps',) ('none',)."""


class NFA:
    """epsilon-free; states are integers, 0 is the start"""

    def __init__(self, e):
        self.trans = []             # state -> list of (symbol set, state)
        eps = []

        def new():
            self.trans.append([])
            eps.append([])
            return len(eps) - 1

        def build(e, a):
            """returns the end state of e started at a"""
            k = e[0]
            if k == 'sym' or k == 'set':
                b = new()
                self.trans[a].append((frozenset([e[1]]) if k == 'sym' else e[1], b))
                return b
            if k == 'seq':
                for x in e[1]:
                    a = build(x, a)
                return a
            if k == 'alt':
                b = new()
                for x in e[1]:
                    s = new()
                    eps[a].append(s)
                    eps[build(x, s)].append(b)
                return b
            if k == 'star':
                s, b = new(), new()
                eps[a].append(s)
                eps[s].append(b)
                eps[build(e[1], s)].append(s)
                return b
            if k == 'eps':
                return a
            if k == 'none':
                return new()
            raise ValueError(k)
        s = new()
        self.end = build(e, s)
        clo = []
        for i in range(len(eps)):
            seen, todo = {i}, [i]
            while todo:
                for j in eps[todo.pop()]:
                    if j not in seen:
                        seen.add(j)
                        todo.append(j)
            clo.append(frozenset(seen))
        self.clo = clo
        self.start = clo[0]

    def step(self, S, a):
        out = set()
        for s in S:
            for syms, t in self.trans[s]:
                if a in syms:
                    out |= self.clo[t]
        return frozenset(out)

    def accepts(self, S):
        return self.end in S

    def symbols(self, S):
        out = set()
        for s in S:
            for syms, _ in self.trans[s]:
                out |= syms
        return out


def dfa(e):
    """(transitions [dict], accepting set), state 0 = start; partial"""
    n = NFA(e)
    return det(n.start, n.step, n.symbols, n.accepts)


def det(start, step, symbols, accepts):
    ids, order, tr = {start: 0}, [start], []
    i = 0
    while i < len(order):
        S = order[i]
        d = {}
        for a in symbols(S):
            T = step(S, a)
            if not T:
                continue
            if T not in ids:
                ids[T] = len(order)
                order.append(T)
            d[a] = ids[T]
        tr.append(d)
        i += 1
    return trim(tr, {i for i, S in enumerate(order) if accepts(S)})


def trim(tr, acc):
    """drops states that cannot reach acceptance"""
    rev = [set() for _ in tr]
    for i, d in enumerate(tr):
        for j in d.values():
            rev[j].add(i)
    live, todo = set(acc), list(acc)
    while todo:
        for i in rev[todo.pop()]:
            if i not in live:
                live.add(i)
                todo.append(i)
    if 0 not in live:
        return [{}], set()
    m = {0: 0}
    for i in range(len(tr)):
        if i in live and i not in m:
            m[i] = len(m)
    out = [None] * len(m)
    for i, j in m.items():
        out[j] = {a: m[t] for a, t in tr[i].items() if t in live}
    return out, {m[i] for i in acc if i in m}


def included(A, B):
    """None, or a word of A that is not in B"""
    (ta, fa), (tb, fb) = A, B
    seen, todo = {(0, 0)}, [(0, 0, ())]
    while todo:
        a, b, w = todo.pop(0)
        if a in fa and (b is None or b not in fb):
            return list(w)
        for s, a2 in ta[a].items():
            b2 = tb[b].get(s) if b is not None else None
            if (a2, b2) not in seen:
                seen.add((a2, b2))
                todo.append((a2, b2, w + (s,)))
    return None
