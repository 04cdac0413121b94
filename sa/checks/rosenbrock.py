from mats import *
from wseries import Expansion, Blocks, NotW, wtrees, wgamma, wname, pure
from terms import tstr

METHODS = ['OdeSolverRosenbrock_W1', 'OdeSolverRosenbrock_SW2_4']
N2 = Poly.atom(('size', 'n2'))


class RClient(MatClient):
    def __init__(self, n2=ZERO):
        MatClient.__init__(self)
        self.n2 = n2
        self.n1 = NV - self.n2.scale(2)
        self.errs = []

    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        if q == N + 'OdeRhs::secondOrderVarCount':
            return [(st, self.n2)]
        if q == N + 'OdeRhs::firstOrderVarCount':
            return [(st, self.n1)]
        if q == N + 'ErrorNormCalculator::errorNorm':
            x = I.read_vec(st, args[0][1], '', fr, n)
            self.errs.append((st.copy(), x[1]))
        return MatClient.vcall(self, I, st, fr, n, fid, ol, args)


def w_setup(p, cls, n2):
    this = (('R', 'this'),)
    cl = RClient(n2)
    I, sts = solver_setup(p, cls, cl)
    for s in sts:
        I.assume(s, ('cmp', '<=', ONE - NV), True)      # at least one variable
        if n2 != ZERO:
            I.assume(s, ('cmp', '<=', ONE - n2), True)
            I.assume(s, ('cmp', '<=', n2.scale(2) - NV), True)
            I.assume(s, ('cmp', '<', n2 - NV), True)
        havoc_params(I, s, this, cls, ('num', 'bool'))
    return cl, I, sts


def w_conditions(ctx):
    """Forward abstract interpretation of construct / setInitialState / doStep of the linearly implicit solvers over
    linear forms whose atoms are right-hand-side evaluations, matrix products and solves with M; the resulting formal
    expansion over two-coloured rooted trees is compared with the conditions for an arbitrary approximate Jacobian."""
    p = ctx.p
    this = (('R', 'this'),)
    paths = 0
    for name in METHODS:
        cls = the_class(p, N + name)
        where = method(p, cls, 'doStep', 0).rloc()
        for n2, what in ((ZERO, 'first order system'), (N2, 'system with second order variables')):
            cl, I, sts = w_setup(p, cls, n2)
            sts = set_state(I, sts, this, cls)
            for k, init in enumerate((None, None, 'new start')):
                if init:
                    sts = set_state(I, sts, this, cls, t=Poly.atom('t0b'), x='x0b')
                nxt = []
                for s in sts:
                    v = {x.cval() if isinstance(x, Poly) else None for x in getv(I, s, this, cls, 'order', 'int')}
                    if len(v) != 1 or None in v:
                        raise AnalysisError('order() of %s is not a constant' % cls)
                    order = int(v.pop())
                    xs0 = get_vec(I, s, this, cls)[0][1]; t0s = getv(I, s, this, cls, 'initialTime')[0]
                    for s2 in each(I, [s], this, cls, 'doStep'):
                        t1 = getv(I, s2, this, cls, 'initialTime')[0]
                        x1 = get_vec(I, s2, this, cls)[0][1]
                        paths += 1
                        subj = '%s, %s, step %d' % (name, what, k + 1)
                        eq = equalities(s2)
                        t1, x1 = subst(t1, eq), subst(x1, eq)
                        h = t1 - subst(t0s, eq)
                        x0 = subst(xs0, eq)
                        ex = Expansion(x0, subst(t0s, eq), h, order)
                        try:
                            if n2 != ZERO:
                                b = Blocks(n2, NV)
                                x1 = b.norm(x1)
                                ex.x0 = b.norm(x0)
                            w = ex.state(x1)
                        except NotW as e:
                            ctx.ob('step is a linearly implicit combination with one operator I - h*d*J', subj, False, where, str(e))
                            continue
                        ctx.ob('step is a linearly implicit combination with one operator I - h*d*J', subj, True, where)
                        ctx.ob('stage times match stage states', subj, not ex.problems, where, '; '.join(ex.problems))
                        bad = []
                        for n in range(1, order + 1):
                            for t in wtrees(n):
                                want = Poly.const(1) / Poly.const(wgamma(t)) if pure(t) else ZERO
                                got = w.get(t, ZERO)
                                d = got - want
                                c = d.cval()
                                ctx.count('order conditions')
                                if c is None and d != ZERO or c is not None and abs(c) > 1e-12:
                                    bad.append('weight of %s is %s, required %s' % (wname(t), tstr(got)[:100], want))
                        ctx.ob('order conditions for every approximate Jacobian', subj, not bad, where, '; '.join(bad))
                        nxt.append(s2)
                sts = nxt[:1] + [s for s in nxt[1:] if s.key() != nxt[0].key()][-1:]
    ctx.floor('step paths', paths, 12)
