from scen import *
import bseries

EXPLICIT = ['OdeSolverExplicitEuler', 'OdeSolverRK4', 'OdeSolverDOPRI45', 'OdeSolverDOPRI56', 'OdeSolverDOPRI78', 'OdeSolverGragg']
MULTISTEP = ['OdeSolverGragg']      # checked as the composition of k steps of size h
TOL = 1e-11


class NotRK(Exception):
    pass


def decompose(x, x0, h, t0):
    """x = x0 + h * sum a_k F_k : {F atom: float}; raises NotRK"""
    out = {}
    hm = None
    d = (x - x0)
    for m, c in d.t.items():
        va = [a for a, e in m if is_v(a)]
        if len(va) != 1 or not (isinstance(va[0][1], tuple) and va[0][1][0] == 'F'):
            raise NotRK('term %r is not a multiple of the right-hand side' % Poly({m: c}))
        rest = Poly({tuple((a, e) for a, e in m if not is_v(a)): c})
        q = (rest / h).cval()
        if q is None:
            # h may be a sum of several atoms: collect below
            raise NotRK('coefficient %r is not a multiple of the step size' % rest)
        out[va[0]] = out.get(va[0], 0) + q
    return out


def tableau(x1, t0, x0, h):
    """(A, b, c, stages) of the Runge-Kutta form of x1"""
    stages = []
    idx = {}
    A = []
    C = []

    def stage(a):
        if a in idx:
            return idx[a]
        _, t, x = a[1]
        deps = decompose(x, x0, h, t0)
        row = {}
        for d, c in deps.items():
            row[stage(d)] = float(c)
        ct = ((t - t0) / h).cval()
        if ct is None:
            raise NotRK('stage time %r is not t + c*h' % t)
        idx[a] = len(A)
        A.append(row); C.append(float(ct)); stages.append(a)
        return idx[a]
    b = {stage(d): float(c) for d, c in decompose(x1, x0, h, t0).items()}
    return A, b, C, stages


def check_form(ctx, subj, where, x1, t1, t0, x0, h, p):
    ok = ctx.ob('time advances by the step size', subj, isinstance(t1, Poly) and (t1 - t0 - h) == ZERO, where,
                'new time is %s, expected %s' % (tstr_(t1), tstr_(t0 + h)))
    try:
        A, b, C, st = tableau(x1, t0, x0, h)
    except NotRK as e:
        ctx.ob('step is a Runge-Kutta combination of the old state', subj, False, where, str(e))
        return None
    ctx.ob('step is a Runge-Kutta combination of the old state', subj, True, where)
    w = 0
    for i, row in enumerate(A):
        w = max(w, abs(sum(row.values()) - C[i]))
    ctx.ob('stage times match stage states', subj, w < TOL, where, 'largest defect of c_i = sum_j a_ij is %.3g' % w)
    d, n = bseries.rk_defects(A, b, p)
    ctx.count('order conditions', n)
    worst = max(d.values(), key=lambda x: x[0])
    ctx.ob('order conditions up to the declared order', subj, worst[0] < TOL, where,
           'declared order %d; largest defect %.3g on tree %s' % (p, worst[0], bseries.tname(worst[1]) if worst[1] is not None else '-'))
    return A, b, C, st


def tstr_(v):
    from terms import tstr
    return tstr(v)[:200]


def order_of(ctx, I, s, this, cls):
    v = getv(I, s, this, cls, 'order', 'int')
    vals = {x.cval() if isinstance(x, Poly) else None for x in v}
    if len(vals) != 1 or None in vals:
        raise AnalysisError('order() of %s is not a constant: %s' % (cls, vals))
    return int(vals.pop())


def order_conditions(ctx):
    """Forward abstract interpretation of construct / setInitialState / doStep of every explicit solver over the domain
    of linear forms whose atoms are right-hand-side evaluations F(t,x); the inferred Butcher tableau of every path that
    completes a step is matched against all rooted-tree order conditions up to order()."""
    p = ctx.p
    this = (('R', 'this'),)
    ncls = 0
    for name in EXPLICIT:
        cls = the_class(p, N + name)
        ncls += 1
        modes = [None]
        if any('OdeSolverExplicitEmbeddedRK' in b for b in p.bases(cls)):
            modes = [0, 1]
        for mode in modes:
            I, sts = solver_setup(p, cls, SolverClient())
            if mode is not None:
                sts = each(I, sts, this, cls, 'setMode', [Poly.const(mode)])
            sts = set_state(I, sts, this, cls)
            subj = name + ('' if mode is None else ' mode %d' % mode)
            where = method(p, cls, 'doStep', 0).rloc()
            multi = name in MULTISTEP
            origin = None
            for k in range(3 if multi else 2):
                nxt = []
                for s in sts:
                    porder = order_of(ctx, I, s, this, cls)
                    xs0 = get_vec(I, s, this, cls)[0][1]; t0s = getv(I, s, this, cls, 'initialTime')[0]
                    if multi:
                        origin = origin or (t0s, xs0)
                        t0s, xs0 = origin
                    for s2 in each(I, [s], this, cls, 'doStep'):
                        t1 = getv(I, s2, this, cls, 'initialTime')[0]
                        x1 = get_vec(I, s2, this, cls)[0][1]
                        h = (H0.scale(k + 1) if multi or k == 0 and len(nxt) == 0 else t1 - t0s)
                        ctx.count('step paths')
                        check_form(ctx, '%s step %d' % (subj, k + 1), where, x1, t1, t0s, xs0, h, porder)
                        nxt.append(s2)
                sts = nxt[:1]
    ctx.floor('solver classes', ncls, 6)
    ctx.floor('step paths', ctx.counts.get('step paths', 0), 12)
