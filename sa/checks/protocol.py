from steps import *


def explore(ctx, groups, classes=None, clientf=StepClient):
    """Abstract runs construct / setInitialState / doStep x2 / setInitialState / doStep of every registered solver with
    and without an event controller; obligations of the given groups are recorded at every event site on every path."""
    p = ctx.p
    this = (('R', 'this'),)
    n = 0
    seen = 0
    for cls in solver_classes(p):
        name = short(cls)
        if classes and name not in classes:
            continue
        f = method(p, cls, 'doStep', 0)
        where = f.rloc()
        if not any(m['name'] == 'setEventController' for b in p.bases(cls) for m in p.classes.get(b, {'methods': []})['methods']):
            raise AnalysisError('%s has no event controller' % cls)
        seen += 1
        for ec in ('null', 'sym'):
            subj = ['']

            def rep(group, rule, ok, w, det):
                if group in groups:
                    ctx.ob(rule, '%s %s' % (name, subj[0]), ok, w or where, det)
            cl = clientf(rep, cls, this)
            I, sts = solver_setup(p, cls, cl, ec=ec)
            sts = collaborators(I, sts, this, cls)
            done = 0
            for s in sts:
                I.assume(s, ('cmp', '<=', ONE - NV), True)
                # a smoothing solver shows another state than it continues from; stage numbers bound loops
                only = ('num',) if name == 'OdeSolverGragg' else ('bool',) if has(p, cls, 'setMaxStages') else ('num', 'bool')
                havoc_params(I, s, this, cls, only)
            for k, what in enumerate(('first step', 'second step', 'step after a new start')):
                if k != 1:
                    if k:
                        for s in sts:
                            s.auto = phase(ec=ec == 'sym')
                    sts = set_state(I, sts, this, cls) if not k else set_state(I, sts, this, cls, t=Poly.atom('t0b'), x='x0b')
                    for s in sts:
                        if ec == 'sym' and k:
                            rep('restart', 'a new initial state restarts event detection', cl.get(s, 'reset', False), where, 'event controller is not reset')
                        if 'restart' in groups:
                            x = 'x0b' if k else 'x0'
                            t, xv = cl.visible(I, s, 'initialTime'), cl.visible(I, s, 'initialState')
                            rep('restart', 'the visible time and state are the given ones', cl.same(I, s, t, Poly.atom('t0b' if k else 't0')) and
                                xv is not None and xv[1] == Poly.atom(('V', x)), where, 'time %s state %s' % (tstr(t)[:60], tstr(xv)[:100]))
                subj[0] = '%s, %s' % (what, 'with event control' if ec == 'sym' else 'without event control')
                for s in sts:
                    s.auto = phase(ec=True if ec == 'sym' else None)
                    if k == 0:
                        cl.gput(s, 'hnext', H0)
                    elif k == 2 or s.store.get(g('trunc')) is not False and ec == 'sym':
                        s.store.pop(g('hnext'), None)
                    arm(cl, I, s)
                nxt = []
                for s in sts:
                    I.exc = []
                    outs = each(I, [s], this, cls, 'doStep')
                    for e in I.exc:
                        thrown(ctx, cl, I, e, groups, '%s %s' % (name, subj[0]), where)
                    for s2 in outs:
                        n += 1
                        finish(cl, I, s2, where)
                        done += 1
                        nxt.append(s2)
                if not nxt:
                    raise AnalysisError('no path of %s::doStep completes (%s)' % (name, subj[0]))
                sts = I.dedupe(nxt)
                if len(sts) > 3:
                    sts = pick(sts)
    return n, seen


def has(p, cls, nm):
    return any(m['name'] == nm for b in p.bases(cls) for m in p.classes.get(b, {'methods': []})['methods'])


def collaborators(I, sts, this, cls, seq='ExtrapolatorStepSequenceHarmonic', stages=3):
    """install the collaborators an extrapolating solver cannot work without: an arbitrary reference solver, and one of
    the step sequences; the number of extrapolation stages is fixed, as it bounds nested loops"""
    if has(I.p, cls, 'setReferenceSolver'):
        sts = share(I, sts, this, cls, 'setReferenceSolver', ('sym', 'refsolver'))
    if has(I.p, cls, 'setStepSequence'):
        loc = (('R', 'stepseq'),)
        sts = [x for s in sts for x in new_object(I, s, loc, N + seq)]
        sts = share(I, sts, this, cls, 'setStepSequence', ('ref', loc))
    if has(I.p, cls, 'setMaxStages'):
        sts = each(I, sts, this, cls, 'setMaxStages', [Poly.const(stages)])
    return sts


def pick(sts):
    """one state per discrete outcome of the last attempt"""
    out = {}
    for s in sts:
        out.setdefault((s.store.get(g('trunc')), s.store.get(g('chg'))), s)
    return list(out.values())[:4]


def thrown(ctx, cl, I, e, groups, subj, where):
    s, typ, node, fr = e
    if 'control' not in groups or not cl.get(s, 'judged'):
        return
    hn = cl.gget(s, 'hnew')
    thr = cl.visible(I, s, 'stepSizeMinThreshold')
    ctx.ob('a judged attempt fails only when the new step size is at or below the minimum', subj,
           cl.truth(I, s, cl.gget(s, 'chg')) is True and I.holds(s, ('cmp', '<=', hn - thr)) is True, fr.where(node) if fr else where,
           'thrown with new step size %s, minimum %s' % (tstr(hn)[:80], tstr(thr)[:60]))


def mk_check(groups, floor):
    def f(ctx):
        n, seen = explore(ctx, groups)
        ctx.floor('solver classes', seen, 10)
        ctx.floor('step paths', n, 60)
        ctx.floor('obligations', len(ctx.obs), floor)
    f.__doc__ = explore.__doc__
    return f


notify = mk_check(('notify',), 1)
commit = mk_check(('commit',), 1)
event = mk_check(('event',), 1)
control = mk_check(('control',), 1)
restart = mk_check(('restart',), 1)
allg = mk_check(('notify', 'commit', 'event', 'control', 'restart'), 1)
