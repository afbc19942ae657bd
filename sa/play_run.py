"""The playground's entry points (property C07).

`result` and `result_tex` are interpreted from their MIR over an arbitrary
state of the shared session; the session's operations and the TeX form are taken
by contract (C02, C04, D04), the lock is tracked as held or free."""
import flow, flowlib
import text as T
from flow import Flow, Giveup, Out, RET, PANIC, St, S, vref
from ast_sem import brief
from ast_specs import literals
from eval_run import guarded


def strip(v):
    return v


class Play:
    def __init__(self, progs, rep):
        self.P, self.rep = progs['play'], rep
        cs = set()
        for b in self.P.bodies.values():
            literals(b['body'], cs)
        T.reset(cs)
        self.I = Flow(self.P, {}, {})
        self.I.cut = self.cut
        self.I.extern = {'Runner::evaluate': self.evaluate, 'Runner::last': self.last, 'ToTex::to_tex': self.tex,
                         'AST::to_tex': self.tex, 'Runner::default': self.default, 'Default::default': self.default}
        self.made = {}

    def cut(self, I, inst, args, st, rty):
        """a lazily initialised static is one value, made by its initialiser"""
        n = I.P.bodies[inst]['name']
        if I.P.bodies[inst]['crate'] == 'sm_playground' and (n.endswith(' as std::ops::Deref>::deref') or n.endswith(' as core::ops::Deref>::deref')):
            t = I.types[rty]['el']
            init = [i for i, b in I.P.bodies.items() if b['name'].startswith(n) and b['name'].endswith('__static_ref_initialize')]
            if len(init) == 1:
                self.made[n] = init[0]
                return [Out(RET, st, vref(('o', ('static', n), t)))]

    # -------------------------------------------------------------- contracts
    def session(self, c):
        return flowlib.resolve(c.I, c.st, c.a[0]) if c.a[0][0] == 'ref' else (None, None, c.I.D(c.st, c.a[0]))

    def results(self, c, st, ok, err):
        out = []
        for vn, v in (('Ok', ok), ('Err', err)):
            vi = c.I.variant(c.rty, vn)
            t = c.I.fields(c.rty, vi)[0]
            out.append(Out(RET, st.copy(), ('adt', c.rty, vi, (v(t),))))
        return out

    def evaluate(self, c):
        cell, path, s = self.session(c)
        if cell is None:
            raise Giveup('evaluating in a session that cannot change')
        t = c.I.tnorm(c.st, c.D(1))
        st = c.st.copy()
        c.I.write(st, cell, path, ('o', ('after', s, t), s[2] if s[0] == 'o' else s[1]))
        return self.results(c, st, lambda ty: ('str', (('t', ('answer', s, t)),)), lambda ty: c.I.opaque(('failure', s, t), ty))

    def last(self, c):
        s = self.session(c)[2]
        return self.results(c, c.st, lambda ty: c.I.opaque(('last', s), ty), lambda ty: c.I.opaque(('none', s), ty))

    def tex(self, c):
        return flowlib.ret(c.st, ('str', (('t', ('tex', c.D(0))),)))

    def default(self, c):
        if c.I.last(c.rty) != 'Runner':
            raise Giveup('no transfer function for %s' % c.F['path'])
        return flowlib.ret(c.st, ('o', ('new session',), c.rty))


def entry(E, name, argc):
    fs = [i for i, b in E.P.bodies.items() if b['crate'] == 'sm_playground' and b['name'].split('::')[-1] == name and b['body']['argc'] == argc]
    if E.rep.need(len(fs) == 1, 'entry ' + name, 'the entry point %s is found' % name):
        return fs[0]


def c07(progs, rep):
    E = Play(progs, rep)
    I = E.I
    cells = {}

    def call(name, given, judge):
        f = entry(E, name, len(given))
        if f is None:
            return

        def go():
            outs = I.call_body(f, given, St())
            rep.paths += len(outs)
            cases = set()
            for o in outs:
                if not rep.need(o.kind == RET, name + ' answers', '%s always answers (%s)' % (name, o.val if o.kind != RET else 'returns')):
                    continue
                held = [k[1] for k, b in o.st.facts.items() if k[0] == 'held']
                if not rep.need(len(held) == 1, name + ' session', '%s uses one shared session (%d)' % (name, len(held))):
                    continue
                rep.need(not o.st.facts[('held', held[0])], name + ' lock', '%s leaves the session free for the next call' % name)
                cells.setdefault(name, set()).add(held[0])
                sid = ('content', held[0][1])
                v = I.D(o.st, o.val)
                judge(o.st, o.st.cells.get(held[0]), sid, I.tnorm(o.st, v) if v[0] == 'str' else v, cases)
            rep.need(cases == {'value', 'error'}, name + ' cases', '%s has an outcome for a value and for an error' % name)
        guarded(rep, name, name, go)

    def is_session(v, sid):
        return v is not None and v[0] == 'o' and v[1] == sid

    def dbg(v, ok):
        return v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'fmt' and v[1][0][1] == 'debug' and not v[1][0][2] and ok(v[1][0][3])

    text = ('str', (('t', ('input',)),))

    def judge(st, after, sid, v, cases):
        now = after is not None and after[0] == 'o' and after[1][0] == 'after' and is_session(after[1][1], sid) and after[1][2] == text
        rep.need(now, 'result evaluates', 'result evaluates exactly the given text once in the shared session (%s)' % brief(after))
        if not now:
            cases |= {'value', 'error'}
            return
        s = after[1][1]
        if v == ('str', (('t', ('answer', s, text)),)):
            cases.add('value')
        elif dbg(v, lambda e: e[0] == 'o' and e[1] == ('failure', s, text)):
            cases.add('error')
        else:
            rep.bad('result text', 'result answers with the text or the error of the evaluation, nothing else (%s)' % brief(v))
            cases |= {'value', 'error'}
    call('result', [vref(text)], judge)

    def judge2(st, after, sid, v, cases):
        if not rep.need(is_session(after, sid), 'result_tex session', 'result_tex does not change the session (%s)' % brief(after)):
            cases |= {'value', 'error'}
            return
        if v[0] == 'str' and len(v[1]) == 1 and v[1][0][:1] == ('t',) and v[1][0][1][0] == 'tex' and v[1][0][1][1][0] == 'o' and v[1][0][1][1][1] == ('last', after):
            cases.add('value')
        elif dbg(v, lambda e: e[0] == 'o' and e[1] == ('none', after)):
            cases.add('error')
        else:
            rep.bad('result_tex text', 'result_tex answers with the TeX form of the last value or the error, nothing else (%s)' % brief(v))
            cases |= {'value', 'error'}
    call('result_tex', [], judge2)
    a, b = cells.get('result', set()), cells.get('result_tex', set())
    rep.need(a == b and len(a) == 1, 'one session', 'both entry points use the same session')

    def fresh():
        for n, i in E.made.items():
            for o in I.call_body(i, [], St()):
                v = o.val
                rep.need(o.kind == RET and v[0] == 'o' and v[1] == ('newlock', ('o', ('new session',), v[1][1][2])) if o.kind == RET and v[0] == 'o' and v[1][0] == 'newlock' else False,
                         'initial', 'the shared session begins as a new session')
    guarded(rep, 'initial', 'the shared session', fresh)
    rep.need(len(E.made) == 1 or not a, 'initial', 'the shared session is made in one place')
    rep.funcs |= set(I.funcs)
