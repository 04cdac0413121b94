from steps import *
from wseries import Expansion, Blocks, NotW, wtrees, wgamma, wname, pure
from checks.rk import tableau, NotRK, TOL
import bseries


def is_embedded(p, cls):
    return any('OdeSolverExplicitEmbeddedRK' in b for b in p.bases(cls))


class EstimateClient(StepClient):
    sink = None
    jacobians = False

    def estimate(self, I, st, fr, n, a):
        e = self.gget(st, 'errv')
        if e is None:
            return
        t, x = self.visible(I, st, 'initialTime'), self.visible(I, st, 'initialState')
        eq = equalities(st)
        self.sink(self, subst(e[1], eq), subst(a[0], eq), a[2], subst(t, eq), subst(x[1], eq), fr.where(n))


def weights_rk(cl, e, h, t, x, q):
    """largest elementary weight of the estimate per order"""
    A, b, c, st = tableau(x + e, t, x, h)
    bad = max([0.0] + [abs(sum(r.values()) - c[i]) for i, r in enumerate(A)])
    w = {}
    for n in range(1, q + 2):
        for tr in bseries.trees(n):
            v = abs(bseries.weight(A, b, tr))
            if v > w.get(n, (0, None))[0]:
                w[n] = (v, bseries.tname(tr))
    return w, bad


def weights_w(cl, e, h, t, x, q):
    ex = Expansion(x, t, h, q + 1)
    if cl.n2 != ZERO:
        b = Blocks(cl.n2, NV)
        e = b.norm(x + e) - b.norm(x)
        ex.x0 = b.norm(x)
        x = ex.x0
    got = ex.state(x + e)
    w = {}
    for n in range(1, q + 2):
        for tr in wtrees(n):
            v = got.get(tr, ZERO)
            c = v.cval()
            v = 0 if v == ZERO else abs(c) if c is not None else 1
            if v > w.get(n, (0, None))[0]:
                w[n] = (v, wname(tr))
    return w, (1 if ex.problems else 0)


def error_estimate(ctx):
    """Forward abstract interpretation of construct / setInitialState / doStep x2 of every solver that hands an error
    estimate to the step size control; the estimate is a linear form over right-hand-side evaluations (and products and
    solves with the iteration matrix), whose elementary weights are computed for every rooted tree up to one order above
    the order handed over together with it."""
    p = ctx.p
    this = (('R', 'this'),)
    sites = 0
    seen = set()
    for cls in solver_classes(p):
        name = short(cls)
        if has_ref(p, cls) or name == 'OdeSolverGragg':
            continue
        emb = is_embedded(p, cls)
        for mode, n2 in (((0, ZERO), (1, ZERO)) if emb else ((None, ZERO), (None, Poly.atom(('size', 'n2'))))):
            where = method(p, cls, 'doStep', 0).rloc()
            cl = EstimateClient(lambda *a: None, cls, this, n2)
            subj = ['']

            def sink(cl, e, h, q, t, x, w):
                nonlocal sites
                sites += 1
                seen.add(name)
                s = '%s%s%s, %s' % (name, '' if mode is None else ' mode %d' % mode, '' if n2 == ZERO else ', second order variables', subj[0])
                q = q.cval() if isinstance(q, Poly) else None
                if q is None or q != int(q) or q < 1 or q > 12:
                    ctx.ob('the order handed to the step size control is a number', s, False, w, 'order is %s' % tstr(q)[:60])
                    return
                q = int(q)
                try:
                    ws, bad = (weights_rk if emb else weights_w)(cl, e, h, t, x, q)
                except (NotRK, NotW) as ex:
                    ctx.ob('the error estimate is a combination of increments of the attempt', s, False, w, str(ex))
                    return
                ctx.ob('the error estimate is a combination of increments of the attempt', s, bad < TOL, w, 'stage times do not match stage states')
                low = [(n, ws[n]) for n in sorted(ws) if n <= q and ws[n][0] > TOL]
                ctx.ob('the error estimate is of the order handed to the step size control', s, not low, w,
                       'order %d; weight %.3g of tree %s with %d vertices' % (q, low[0][1][0], low[0][1][1], low[0][0]) if low else '')
                ctx.ob('the error estimate does not vanish at the next order', s, ws.get(q + 1, (0,))[0] > 1e-9, w,
                       'order %d; all weights of order %d vanish' % (q, q + 1))
            cl.sink = sink
            I, sts = solver_setup(p, cls, cl)
            if emb:
                sts = each(I, sts, this, cls, 'setMode', [Poly.const(mode)])
            for s in sts:
                I.assume(s, ('cmp', '<=', ONE - NV), True)
                if n2 != ZERO:
                    I.assume(s, ('cmp', '<=', ONE - n2), True)
                    I.assume(s, ('cmp', '<=', n2.scale(2) - NV), True)
                    I.assume(s, ('cmp', '<', n2 - NV), True)
                if not emb:
                    havoc_params(I, s, this, cls, ('num', 'bool'))
            sts = set_state(I, sts, this, cls)
            for k in range(2):
                subj[0] = 'step %d' % (k + 1)
                for s in sts:
                    s.auto = None
                    arm(cl, I, s)
                sts = each(I, sts, this, cls, 'doStep')[:2]
    ctx.floor('solvers with an error estimate', len(seen), 4)
    ctx.floor('judged error estimates', sites, 10)


def has_ref(p, cls):
    return any(m['name'] == 'setReferenceSolver' for b in p.bases(cls) for m in p.classes.get(b, {'methods': []})['methods'])
