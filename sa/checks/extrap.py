from steps import *
from checks.protocol import collaborators, has
TOL = 1e-9


def fpoly(v):
    return v.cval() if isinstance(v, Poly) else None


class ExtrapClient(StepClient):
    """The reference solver is an arbitrary one-step method: k steps of size h from (t, x) lead to march(t, x, h, k)."""
    sink = None

    def sub(self, I, st, fr, n, nm, ol, args):
        if nm == 'setInitialState':
            self.gput(st, 'rx', self.vec(I, st, args[1], fr, n)[1]); self.gput(st, 'rt', self.val(I, st, args[0]))
            self.gput(st, 'rn', ZERO)
            return [(st, None)]
        if nm == 'setInitialStepSize':
            self.gput(st, 'rh', self.val(I, st, args[0]))
            return [(st, None)]
        if nm == 'doStep':
            x, t, h = self.gget(st, 'rx'), self.gget(st, 'rt'), self.gget(st, 'rh')
            a = single(x)
            if self.gget(st, 'rn') == ONE and a is not None and a[1][0] == 'march' and a[1][3] == h and a[1][1] + h.scale(a[1][4]) == t:
                a = ('V', ('march', a[1][1], a[1][2], h, a[1][4] + 1))
            else:
                a = ('V', ('march', t, x, h, 1))
            self.gput(st, 'rx', Poly.atom(a)); self.gput(st, 'rt', t + h); self.gput(st, 'rn', ONE)
            return [(st, None)]
        if nm == 'initialState':
            loc = I.temp(fr, n)
            I.drop(st, loc)
            st.store[loc] = ('vec', self.gget(st, 'rx'), NV)
            return [(st, ('agg', loc))]
        if nm == 'initialTime':
            return [(st, self.gget(st, 'rt'))]
        if nm == 'order':
            return [(st, Poly.atom(('suborder',)))]
        return StepClient.sub(self, I, st, fr, n, nm, ol, args)

    def estimate(self, I, st, fr, n, a):
        e = self.gget(st, 'errv')
        t, x = self.visible(I, st, 'initialTime'), self.visible(I, st, 'initialState')
        eq = equalities(st)
        self.sink('estimate', e and subst(e[1], eq), subst(a[0], eq), a[2], subst(t, eq), subst(x[1], eq), fr.where(n))

    def post(self, I, st, fr, n, args):
        if self.truth(I, st, self.gget(st, 'acc')) in (None, True) and self.gget(st, 'acc') is not False:
            x = self.visible(I, st, 'initialState')
            eq = equalities(st)
            t0, x0, h = self.gget(st, 't'), self.gget(st, 'x'), self.gget(st, 'h')
            self.sink('result', subst(x[1], eq), subst(h, eq), None, subst(t0, eq), subst(x0[1], eq), fr.where(n))
        return StepClient.post(self, I, st, fr, n, args)


def single(x):
    if not isinstance(x, Poly) or len(x.t) != 1:
        return None
    (m, c), = x.t.items()
    return m[0][0] if c == 1 and len(m) == 1 and m[0][1] == 1 and is_v(m[0][0]) and isinstance(m[0][0][1], tuple) else None


class NotComb(Exception):
    pass


def combination(x, t0, x0, h):
    """{n: weight} such that x = sum of weight * (n steps of size h/n from (t0, x0))"""
    out = {}
    for m, c in x.t.items():
        if len(m) != 1 or m[0][1] != 1 or not is_v(m[0][0]) or not isinstance(m[0][0][1], tuple) or m[0][0][1][0] != 'march':
            raise NotComb('%s is not a multiple of a result of the reference solver' % tstr(Poly({m: c}))[:150])
        _, t, y, hs, k = m[0][0][1]
        if t != t0 or y != x0:
            raise NotComb('the reference solver starts from %s, %s instead of the state the attempt starts from' % (tstr(t)[:60], tstr(y)[:100]))
        r = fpoly(hs.scale(k) / h)
        if r is None or abs(r - 1) > TOL:
            raise NotComb('%d steps of size %s do not make up the step size %s' % (k, tstr(hs)[:60], tstr(h)[:60]))
        out[k] = out.get(k, 0) + float(c)
    return out


def defects(w, sigma, total, last):
    """conditions sum w = total and sum w n^(-j sigma) = 0, j = 1..last, relative to the size of the weights"""
    bad = []
    if abs(sum(w.values()) - total) > TOL:
        bad.append('weights sum up to %.6g instead of %g' % (sum(w.values()), total))
    for j in range(1, last + 1):
        s = sum(v * float(n) ** (-j * sigma) for n, v in w.items())
        if abs(s) > TOL:
            bad.append('power %d of the step size is not eliminated: %.3g' % (j * sigma, s))
    return bad


def extrapolation(ctx):
    """Forward abstract interpretation of construct / setInitialState / doStep x2 of the extrapolating solver with an
    arbitrary reference solver, for every step sequence, 1 to 6 stages, both kinds of error expansion; committed states
    and error estimates are linear forms over results of the reference solver, whose weights must satisfy the
    extrapolation conditions."""
    p = ctx.p
    this = (('R', 'this'),)
    n = 0
    seqs = sorted(c for c in p.subclasses(N + 'ExtrapolatorStepSequence') if not p.classes[c].get('abstract') and any(b['name'].startswith('ctm::FactoryMixin<') for b in p.classes[c]['bases']))
    ctx.floor('step sequences', len(seqs), 3)
    for cls in [c for c in solver_classes(p) if has(p, c, 'setStepSequence')]:
        name = short(cls)
        where = method(p, cls, 'doStep', 0).rloc()
        for seq in seqs:
            for sym in (False, True):
                for M in (1, 2, 3, 4, 5, 6):
                    sigma = 2 if sym else 1
                    subj = ['']
                    cl = ExtrapClient(lambda *a: None, cls, this)
                    Mr = [M]

                    def sink(what, x, h, q, t, x0, w):
                        nonlocal n
                        M = Mr[0]
                        n += 1
                        s = '%s, %s, %s, %d stages%s' % (name, seq.rsplit('::', 1)[1], 'even powers' if sym else 'all powers', M, subj[0])
                        what_ = 'committed state' if what == 'result' else 'error estimate'
                        if what == 'estimate' and x is None:
                            ctx.ob('an estimate is made whenever there are two stages', s, M < 2, w)
                            return
                        try:
                            c = combination(x, t, x0, h)
                        except NotComb as e:
                            ctx.ob('%s combines results of the reference solver over the attempt' % what_, s, False, w, str(e))
                            return
                        ctx.ob('%s combines results of the reference solver over the attempt' % what_, s, True, w)
                        c = {k: v for k, v in c.items() if abs(v) > TOL}
                        if what == 'result':
                            b = defects(c, sigma, 1, M - 1)
                            ctx.ob('committed state eliminates the leading powers of the step size', s, not b, w, '; '.join(b))
                        else:
                            b = defects(c, sigma, 0, M - 2)
                            ctx.ob('error estimate eliminates all powers but the last', s, not b, w, '; '.join(b))
                            lead = sum(v * float(k) ** (-(M - 1) * sigma) for k, v in c.items())
                            ctx.ob('error estimate does not vanish', s, abs(lead) > 1e-12, w)
                            want = Poly.atom(('suborder',)) + Poly.const((M - 2) * sigma)
                            ctx.ob('the order handed to the step size control is that of the estimate', s, q == want, w, 'order %s, expected %s' % (tstr(q)[:60], tstr(want)))
                    I, sts = solver_setup(p, cls, cl)
                    sts = collaborators(I, sts, this, cls, seq=seq.rsplit('::', 1)[1], stages=M)
                    for s in sts:
                        I.assume(s, ('cmp', '<=', ONE - NV), True)
                        havoc_params(I, s, this, cls, ('bool',))
                        for fc, f, t in param_members(p, cls):
                            if f.endswith('symmetric'):
                                s.store[this + (('f', fc, f),)] = sym
                    cl.sink = sink
                    for s in sts:
                        o = {tstr(v) for v in getv(I, s, this, cls, 'order', 'int')}
                        want = Poly.atom(('suborder',)) + Poly.const((M - 1) * sigma)
                        ctx.ob('declared order follows from stages and reference order', '%s, %d stages, %s' % (name, M, 'even powers' if sym else 'all powers'),
                               o == {tstr(want)}, where, 'declared %s, expected %s' % (sorted(o), tstr(want)))
                    sts = set_state(I, sts, this, cls)
                    for k in range(3):
                        subj[0] = ', step %d' % (k + 1)
                        if k == 2:
                            if not has(p, cls, 'setMaxStages') or M > 3:
                                break
                            sts = each(I, sts, this, cls, 'setMaxStages', [Poly.const(M + 2)])
                            Mr[0] = M + 2
                            subj[0] = ', step after more stages were asked for'
                        for s in sts:
                            s.auto = None
                            arm(cl, I, s)
                        sts = each(I, sts, this, cls, 'doStep')[:2]
    ctx.floor('judged results and estimates', n, 150)
