from scen import *
from checks.euler import enum_value

IT, DD, RS = ('sym', 'itperf'), ('sym', 'ddir'), ('sym', 'rs')
ITL = (('P', 'itperf'),)
CUR = ITL + (('f', 'ghost', '#x'),)
THIS = (('R', 'this'),)


class RunClient(Base):
    """The iteration performer, descent direction, regularization strategy and observers are arbitrary; what they are told
    and what they answer is the trace."""
    max_states = 1 << 20

    def __init__(self, values, rs):
        super().__init__()
        self.values = values        # outcomes of an iteration
        self.rs = rs

    def note(self, st, *e):
        st.auto = (st.auto or ()) + (e,)

    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        nm = q.rsplit('::', 1)[-1]
        if ol is not None and ol[:1] == ITL:
            if nm == 'newtonDescentDirection':
                return [(st, DD)]
            if nm == 'reset':
                self.note(st, 'reset', args[0])
                return [(st, None)]
            if nm == 'setInitialGuess':
                x = I.read_vec(st, args[0][1], '', fr, n)
                I.write(st, CUR, x, fr, n)
                self.note(st, 'guess', x[1], args[1])
                return [(st, None)]
            if nm == 'currentSolution':
                return [(st, ('ref', CUR))]
            if nm == 'iteration':
                out = []
                k = I.fresh(st, ('iteration',))
                for v in self.values:
                    s = st.copy()
                    x = I.read_vec(s, CUR, '', fr, n)
                    I.write(s, CUR, ('vec', Poly.atom(('V', ('X', k, x[1]))), x[2]), fr, n)
                    self.note(s, 'iteration', args[0], v)
                    out.append((s, self.values[v]))
                return out
        if ol is not None and ol[:1] == (('P', 'ddir'),):
            if nm == 'reportSuccess':
                self.note(st, 'report', args[0])
                return [(st, None)]
            if nm == 'hardResetMayHelp':
                # an answer given once stands
                prev = [e[1] for e in st.auto or () if e[0] == 'mayhelp']
                out = []
                for b in ([prev[-1]] if prev else (True, False)):
                    s = st.copy()
                    self.note(s, 'mayhelp', b)
                    out.append((s, b))
                return out
        if nm == 'regularizationStrategy':
            return [(st, RS if self.rs else ('null',))]
        if nm == 'adjustRegularizationParameter':
            out = []
            for b in (True, False):
                s = st.copy()
                self.note(s, 'adjust', b)
                out.append((s, b))
            return out
        if q == 'ctm::cxx::TerminatingObservers::operator()':
            out = []
            who = args[1]
            for b in (True, False):
                s = st.copy()
                a0 = args[0]
                if isinstance(a0, tuple) and a0[0] == 'ref':
                    a0 = I.read(s, a0[1], 'unsigned int', fr, n)
                self.note(s, 'observe', a0, b)
                out.append((s, b))
            return out
        return None


def judge(trace, result, limit, rs):
    """what is wrong with a trace of a run (None: nothing)"""
    tr = list(trace)
    ev = [e for e in tr if e[0] != 'mayhelp']
    mayhelp = next((e[1] for e in tr if e[0] == 'mayhelp'), None)
    pos = 0

    def nxt():
        return ev[pos][0] if pos < len(ev) else None
    if nxt() != 'reset' or ev[0][1] is not False:
        return 'the iteration performer is not reset (softly) before the first iteration'
    pos = 1
    shown = 0
    for attempt in (0, 1):
        for k in range(limit):
            if nxt() != 'iteration':
                return 'iteration %d of attempt %d is missing' % (k, attempt + 1)
            if ev[pos][1] != Poly.const(k):
                return 'iteration %d gets the number %s' % (k, tstr_(ev[pos][1]))
            status = ev[pos][2]
            pos += 1
            if nxt() != 'observe':
                return 'observers are not told about an iteration'
            if ev[pos][1] != Poly.const(shown):
                return 'observers are told %s, expected the running number %d' % (tstr_(ev[pos][1]), shown)
            stop = ev[pos][2]
            pos += 1
            shown += 1
            if stop:
                if result != 'Terminated':
                    return 'terminated by an observer, but the result is %s' % result
                return None if pos == len(ev) else 'something is done after termination: %s' % ev[pos][0]
            adj = False
            if rs:
                if nxt() != 'adjust':
                    return 'the regularization strategy is not asked after an iteration'
                adj = ev[pos][1]
                pos += 1
            if adj or status == 'ContinueIterations':
                continue
            if status == 'Converged':
                if result != 'Converged':
                    return 'converged, but the result is %s' % result
                return None if ev[pos:] == [('report', True)] else 'after convergence: %s, expected one report of success' % (ev[pos:],)
            # diverged
            if nxt() == 'report' and ev[pos][1] is False:
                pos += 1
                reported = True
            else:
                reported = False
            break
        else:
            status, reported = None, False
        # the attempt failed
        if attempt == 0 and nxt() == 'guess':
            if mayhelp is not True:
                return 'a hard reset is tried although it cannot help'
            if ev[pos][1] != Poly.atom(('V', 'x0')) or ev[pos][2] is not True:
                return 'the second attempt starts from %s, hard reset %s' % (tstr_(ev[pos][1]), ev[pos][2])
            pos += 1
            continue
        if attempt == 0 and mayhelp is not False:
            return 'no hard reset is tried although it may help'
        if status is None or not reported:
            if nxt() != 'report' or ev[pos][1] is not False:
                return 'the failure is not reported to the descent direction'
            pos += 1
        if pos != len(ev):
            return 'the end is followed by %s' % (ev[pos:],)
        want = 'Diverged' if status == 'Diverged' else 'IterationCountLimitExceeded'
        return None if result == want else 'the result is %s, expected %s' % (result, want)
    return 'more than two attempts'


def tstr_(x):
    from terms import tstr
    return tstr(x)[:80]


def newton_run(ctx):
    """All paths of the run of every registered nonlinear solver (typestate analysis of its dialogue with arbitrary
    collaborators, for several iteration limits) are judged by the protocol of the interface."""
    p = ctx.p
    classes = [c for c in p.subclasses(N + 'NewtonSolverInterface<' + VD + '>') if any(b['name'].startswith('ctm::FactoryMixin<') for b in p.classes[c]['bases'])]
    ctx.floor('nonlinear solvers', len(classes), 1)
    its = {k: enum_value(p, k, 'ErrorEstimator') for k in ('Converged', 'ContinueIterations', 'Diverged')}
    ends = {k: enum_value(p, k, 'NewtonSolverInterface') for k in ('Converged', 'Diverged', 'Terminated', 'IterationCountLimitExceeded')}
    ctx.ob('results of a run are distinct', 'NewtonSolverInterface', len(set(ends.values())) == 4)
    for cls in classes:
        f = method(p, cls, 'run', 0)
        for rs in (False, True):
            for limit in ((0, 1, 2, 3) if not rs else (1, 2)):
                cl = RunClient(its, rs)
                I = Interp(p, cl)
                sts = new_object(I, State(), THIS, cls)
                sts = share(I, sts, THIS, cls, 'setIterationPerformer', IT)
                sts = each(I, sts, THIS, cls, 'setIterationCountLimit', [Poly.const(limit)])
                for s in sts:
                    put_vec(s, CUR, 'x0', NV)
                    s.auto = ()
                    s.facts[('nn', RS)] = True
                    for s2, v in I.run(f, THIS, [], s):
                        got = [k for k in ends if ends[k] == v]
                        bad = judge(s2.auto, got[0] if got else '?', limit, rs)
                        ctx.count('run paths')
                        ctx.ob('protocol of a run', '%s, limit %d, %s regularization, %s' % (short(cls), limit, 'with' if rs else 'without', got[0] if got else 'unknown result'), bad is None, f.rloc(), '%s in %s' % (bad, ' '.join(str([x if not isinstance(x, Poly) else tstr_(x) for x in e]) for e in s2.auto)))
                ctx.ob('a run ends regularly', '%s, limit %d' % (short(cls), limit), not I.exc, f.rloc(), 'a path leaves with an exception')
    ctx.floor('run paths', ctx.counts.get('run paths', 0), 100)


# ------------------------------------------------------------------ line search
from polyh import Cons
from fractions import Fraction

MAP = ('sym', 'mapping')


def registered(p, iface):
    return [c for c in p.subclasses(N + iface + '<' + VD + '>') if any(b['name'].startswith('ctm::FactoryMixin<') for b in p.classes[c]['bases'])]


def fval(x):
    return Poly.atom(('V', ('F', x)))


class MapClient(Base):
    """the mapping is an uninterpreted function"""
    max_states = 1 << 20

    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        if q == N + 'VectorMapping::map' and len(args) == 2:
            if ol[:1] not in ((('P', 'mapping'),), (('P', 'mapping2'),)):
                return None
            x = I.read_vec(st, args[1][1], '', fr, n)
            v = Poly.atom(('V', ('F' if ol[0][1] == 'mapping' else 'F2', x[1])))
            I.write(st, args[0][1], ('vec', v, x[2]), fr, n)
            self.evaluated(I, st, fr, n, x)
            return [(st, None)]
        if q == N + 'VectorMapping::outputSize' or q == N + 'VectorMapping::inputSize':
            return [(st, NV)]
        return self.more(I, st, fr, n, q, ol, args)

    def evaluated(self, I, st, fr, n, x):
        st.auto = (st.auto or ()) + (x[1],)

    def more(self, I, st, fr, n, q, ol, args):
        return None


def linear_search(ctx):
    p = ctx.p
    X, D, F0 = (Poly.atom(('V', a)) for a in ('x0', 'dir', 'f0'))
    n2 = lambda v: Poly.atom(('app', 'norm', 'euclideanNormSquare', min(v, -v, key=absint_akey)))
    for cls in registered(p, 'NewtonLinearSearch'):
        f = method(p, cls, 'lineSearch', 4)
        for limit in (0, 1, 2, 3):
            for want_res in (True, False):
                I = Interp(p, MapClient())
                sts = new_object(I, State(), THIS, cls)
                sts = share(I, sts, THIS, cls, 'setMapping', MAP)
                if any(m['name'] == 'setMaxStepTruncations' for b in p.bases(cls) for m in p.classes.get(b, {'methods': []})['methods']):
                    sts = each(I, sts, THIS, cls, 'setMaxStepTruncations', [Poly.const(limit)])
                subj = '%s, %d truncations, %s residual' % (short(cls), limit, 'with' if want_res else 'without')
                for s in sts:
                    for nm in ('dir', 'x0', 'f0'):
                        put_vec(s, (('R', nm),), nm, NV)
                    put_vec(s, (('R', 'res'),), 'old', NV)
                    s.auto = ()
                    for s2, a in I.run(f, THIS, [('ref', (('R', 'dir'),)), ('ref', (('R', 'x0'),)), ('ref', (('R', 'f0'),)), ('ref', (('R', 'res'),)) if want_res else ('null',)], s):
                        ctx.count('line search paths')
                        nf0 = n2(F0)
                        av = a.cval() if isinstance(a, Poly) else None
                        res = I.read_vec(s2, (('R', 'res'),), '', None, None)[1]
                        tried, bad = [], []
                        for x in s2.auto:
                            b = (x - X)
                            k = next((c for c in range(-1, 2, 2) for c in [c]), None)
                            beta = [c for m, c in b.t.items()]
                            if len(beta) != 1 or b != D.scale(beta[0]):
                                bad.append('the mapping is evaluated at %s' % tstr_(x))
                                continue
                            tried.append((beta[0], fval(x)))
                        atoms = [next(iter(v.t))[0][0] for v in [nf0] + [n2(v) for _, v in tried]]
                        path = Cons(atoms).facts(s2.facts)
                        if path.empty():
                            continue
                        want = [Fraction(1, 2 ** i) for i in range(limit)]
                        seq = [b for b, _ in tried]
                        ks = len([b for b in seq if b > 0])
                        if seq[:ks] != want[:ks] or seq[ks:] != [-b for b in want[:len(seq) - ks]]:
                            bad.append('steps %s are tried, expected halvings from 1, then from -1' % [str(b) for b in seq])
                        ratio = lambda v: n2(v) - nf0
                        for i, (b, v) in enumerate(tried):
                            last = i == len(tried) - 1
                            if b < 0 and not all(path.implies(ratio(w), '>=') for c, w in tried if c > 0):
                                bad.append('the opposite direction is tried although a step forward is an improvement')
                            if not last and not path.implies(n2(v) - nf0.scale(Fraction(4, 5)), '>='):
                                bad.append('the search goes on after a sufficient improvement by step %s' % b)
                        if av is None:
                            bad.append('the step ratio is %s' % tstr_(a))
                        elif av == 0:
                            if not all(path.implies(ratio(w), '>=') for c, w in tried):
                                bad.append('no step is taken although there is an improvement')
                            if len(seq) != 2 * limit:
                                bad.append('no step is taken although only %d steps were tried' % len(seq))
                            if want_res and res != Poly.atom(('V', 'old')):
                                bad.append('the residual is changed although no step is taken')
                        else:
                            hit = [v for b, v in tried if b == av]
                            if not hit:
                                bad.append('the step ratio %s was not tried' % av)
                            else:
                                if want_res and res != hit[0]:
                                    bad.append('the residual returned, %s, is not that of the step ratio %s' % (tstr_(res), av))
                                if not path.implies(ratio(hit[0]), '<'):
                                    bad.append('the step taken is no improvement')
                                for b, v in tried:
                                    if not path.implies(n2(hit[0]) - n2(v), '<='):
                                        bad.append('step %s is better than the one taken, %s' % (b, av))
                            if not path.implies(n2(tried[-1][1]) - nf0.scale(Fraction(4, 5)), '<') and ks != limit and len(seq) == ks:
                                bad.append('the search ends early')
                        ctx.ob('outcome of the line search', subj, not bad, f.rloc(), '; '.join(bad) + ' (steps tried %s, result %s)' % ([str(b) for b in seq], tstr_(a)))
                ctx.ob('the line search ends', subj, not I.exc, f.rloc(), 'a path leaves with an exception')
    ctx.floor('line search paths', ctx.counts.get('line search paths', 0), 30)


def absint_akey(x):
    from terms import akey
    return akey(x)


# ------------------------------------------------------------------ error estimation
def estimator(ctx):
    p = ctx.p
    from checks.stepsize import keyed_members
    KEYS = ('abs_tol', 'rel_tol', 'abs_max_threshold', 'rel_max_threshold')
    its = {k: enum_value(p, k, 'ErrorEstimator') for k in ('Converged', 'ContinueIterations', 'Diverged')}
    inf = lambda v: Poly.atom(('app', 'norm', 'infNorm', min(v, -v, key=absint_akey)))
    for cls in registered(p, 'ErrorEstimator'):
        km = keyed_members(p, cls)
        miss = [k for k in KEYS if k not in km]
        if miss:
            raise AnalysisError('%s: no member is loaded for parameter(s) %s' % (short(cls), ', '.join(miss)))
        for steps in (0, 1, 2):
            I = Interp(p, MapClient())
            sts = new_object(I, State(), THIS, cls)
            c = {}
            for s in sts:
                for k in KEYS:
                    loc = THIS + (km[k],)
                    I.drop(s, loc)
                    c[k] = s.store[loc] = Poly.atom(('cfg', k))
                for k in KEYS[:2]:
                    I.assume(s, ('cmp', '<=', -c[k]), True)
                put_vec(s, (('R', 'g'),), 'g', NV)
                for i in range(2):
                    put_vec(s, (('R', 'x%d' % i),), 'x%d' % i, NV)
                    put_vec(s, (('R', 'r%d' % i),), 'r%d' % i, NV)
            sts = each(I, sts, THIS, cls, 'reset', [('ref', (('R', 'g'),))])
            xs = ['g', 'x0', 'x1'][:steps + 1]
            for i in range(steps):
                sts = each(I, sts, THIS, cls, 'setCurrentSolution', [('ref', (('R', 'x%d' % i),)), ('ref', (('R', 'r%d' % i),))])
            f = method(p, cls, 'currentStatus', 0)
            subj = '%s, %d iterations' % (short(cls), steps)
            X = [Poly.atom(('V', x)) for x in xs]
            for s in sts:
                if steps:
                    xn, dn, an = inf(X[-2]), inf(X[-1] - X[-2]), inf(Poly.atom(('V', 'r%d' % (steps - 1))))
                    cases = [('old point zero', [(xn, '==')], ZERO), ('old point non-zero', [(xn, '>')], dn * xn.inv())]
                else:
                    xn = None
                    an = ZERO
                    cases = [('start', [], ZERO)]
                base = Cons().facts(s.facts)
                if xn is not None:
                    base.add(xn, '>='); base.add(dn, '>='); base.add(an, '>=')
                for name, cs, rel in cases:
                    here = base.with_(*cs)
                    if here.empty():
                        continue
                    e = peek(I, s, THIS, cls, 'absoluteError')
                    ctx.ob('the absolute error is that of the last residual', subj, e == [an], f.rloc(), '%s instead of %s' % (tstr_(e), tstr_(an)))
                    e = peek(I, s, THIS, cls, 'relativeError')
                    ctx.ob('the relative error is that of the last step', '%s, %s' % (subj, name), e == [rel], f.rloc(), '%s instead of %s' % (tstr_(e), tstr_(rel)))
                    for s2, v in I.run(f, THIS, [], s.copy()):
                        got = [k for k in its if its[k] == v]
                        ctx.count('status paths')
                        path = Cons().facts(s2.facts)
                        for q, o in cs:
                            path.add(q, o)
                        if path.empty():
                            continue
                        AT, RT, AM, RM = (c[k] for k in KEYS)
                        conv = [(an - AT, '<='), (rel - RT, '<=')]
                        div = [[(AM, '>'), (an - AM, '>=')], [(RM, '>'), (rel - RM, '>=')]]
                        import itertools
                        neg_ = {'<=': '>', '>=': '<', '>': '<='}
                        bad = []
                        if got != ['Converged'] and path.feasible(*conv):
                            bad.append('both errors may be within their tolerances')
                        if got == ['Converged']:
                            if not all(path.implies(q, o) for q, o in conv):
                                bad.append('an error may exceed its tolerance')
                        nonconv = [path.with_((q, neg_[o])) for q, o in conv]
                        if got == ['ContinueIterations'] and any(n_.feasible(*d) for n_ in nonconv for d in div):
                            bad.append('an error may exceed its threshold')
                        if got == ['Diverged']:
                            for pick in itertools.product(*div):
                                if any(n_.feasible(*[(q, neg_[o]) for q, o in pick]) for n_ in nonconv):
                                    bad.append('no error may exceed its threshold')
                                    break
                        ctx.ob('status of the iteration', '%s, %s: %s' % (subj, name, got[0] if got else '?'), got and not bad, f.rloc(), '; '.join(bad))
    ctx.floor('status paths', ctx.counts.get('status paths', 0), 8)


# ------------------------------------------------------------------ iteration performer
class IterClient(MapClient):
    def __init__(self, report, cls, its):
        super().__init__()
        self.report, self.cls, self.its = report, cls, its

    def ghost(self, st, nm):
        return st.store.get((('R', 'ghost'), ('f', 'ghost', nm)))

    def gset(self, st, nm, v):
        st.store[(('R', 'ghost'), ('f', 'ghost', nm))] = v

    def F(self, st, x):
        return Poly.atom(('V', ('F2' if self.ghost(st, 'map') else 'F', x)))

    def evaluated(self, I, st, fr, n, x):
        pass

    def more(self, I, st, fr, n, q, ol, args):
        nm = q.rsplit('::', 1)[-1]
        vec = lambda k: I.read_vec(st, args[k][1], '', fr, n)[1]
        where = fr.where(n) if fr else ''
        if ol is not None and ol[:1] == (('P', 'ddir'),):
            if nm == 'reset':
                self.gset(st, 'ddreset', args[0])
                return [(st, None)]
            if nm == 'computeDescentDirection':
                k = len(args) - 3
                x, f0 = vec(k), vec(k + 1)
                cx = self.ghost(st, 'x')
                self.report('the descent direction is asked for at the current point', x == cx, where, 'asked at %s, expected %s' % (tstr_(x), tstr_(cx)))
                self.report('the descent direction gets the residual of the point', f0 == self.F(st, cx), where, 'residual %s at %s' % (tstr_(f0), tstr_(x)))
                it = args[k + 2]
                self.report('the iteration number is passed on', it == self.ghost(st, 'it'), where, tstr_(it))
                d = Poly.atom(('V', ('dir', x)))
                self.gset(st, 'dir', d)
                if k:
                    I.write(st, args[0][1], ('vec', d, NV), fr, n)
                    return [(st, None)]
                loc = I.temp(fr, n)
                I.drop(st, loc)
                st.store[loc] = ('vec', d, NV)
                return [(st, ('agg', loc))]
        if nm == 'lineSearch':
            d, x, f0 = vec(0), vec(1), vec(2)
            cx = self.ghost(st, 'x')
            self.report('the line search starts at the current point', x == cx and d == self.ghost(st, 'dir'), where, 'from %s along %s' % (tstr_(x), tstr_(d)))
            self.report('the line search gets the residual of the point', f0 == self.F(st, cx), where, 'residual %s at %s' % (tstr_(f0), tstr_(x)))
            out = []
            for al in (Poly.atom(('ratio', x)), ZERO):
                s = st.copy()
                if al != ZERO:
                    I.assume(s, ('cmp', '==', al), False)
                    if args[3] != ('null',):
                        I.write(s, args[3][1], ('vec', self.F(st, x + al * d), NV), fr, n)
                self.gset(s, 'x', x + al * d)
                self.gset(s, 'ratio', al)
                out.append((s, al))
            return out
        if ol is not None and ol[:1] == (('P', 'est'),):
            if nm == 'reset':
                self.gset(st, 'estx', vec(0))
                return [(st, None)]
            if nm == 'setCurrentSolution':
                x, r = vec(0), vec(1)
                cx = self.ghost(st, 'x')
                self.report('the error estimator gets the new point', x == cx, where, '%s instead of %s' % (tstr_(x), tstr_(cx)))
                self.report('the error estimator gets the residual of the new point', r == self.F(st, cx), where, '%s instead of %s' % (tstr_(r), tstr_(self.F(st, cx))))
                self.gset(st, 'estx', x)
                return [(st, None)]
            if nm == 'currentStatus':
                self.report('the status is that of the new point', self.ghost(st, 'estx') == self.ghost(st, 'x'), where, '')
                out = []
                for k in self.its:
                    s = st.copy()
                    self.gset(s, 'status', self.its[k])
                    out.append((s, self.its[k]))
                return out
        return None


def performer(ctx):
    p = ctx.p
    its = {k: enum_value(p, k, 'ErrorEstimator') for k in ('Converged', 'ContinueIterations', 'Diverged')}
    for cls in registered(p, 'NewtonIterationPerformer'):
        f = method(p, cls, 'iteration', 1)
        for hist in ('i', 'ii', 'iri', 'igi', 'imi', 'mgi', 'iGi'):
            cur = ['']
            subj = '%s, %s' % (short(cls), ', '.join({'i': 'iteration', 'r': 'soft reset', 'g': 'new start', 'G': 'new start without hard reset', 'm': 'other mapping'}[c] for c in hist))

            def report(rule, ok, w, det):
                ctx.ob(rule, subj, ok, w or f.rloc(), det)
            cl = IterClient(report, cls, its)
            I = Interp(p, cl)
            sts = new_object(I, State(), THIS, cls)
            sts = share(I, sts, THIS, cls, 'setMapping', MAP)
            for st_, v in (('setNewtonDescentDirection', ('sym', 'ddir')), ('setErrorEstimator', ('sym', 'est')), ('setNewtonLinearSearch', ('sym', 'ls'))):
                sts = share(I, sts, THIS, cls, st_, v)

            def guess(sts, nm, hard):
                for s in sts:
                    put_vec(s, (('R', nm),), nm, NV)
                    s.store.pop((('R', 'ghost'), ('f', 'ghost', 'ddreset')), None)
                out = each(I, sts, THIS, cls, 'setInitialGuess', [('ref', (('R', nm),)), hard])
                for s in out:
                    cl.gset(s, 'x', Poly.atom(('V', nm)))
                    report('a new start resets error estimator and descent direction', cl.ghost(s, 'estx') == Poly.atom(('V', nm)) and cl.ghost(s, 'ddreset') is hard, '', 'estimator %s, hard reset %s' % (tstr_(cl.ghost(s, 'estx')), cl.ghost(s, 'ddreset')))
                    x = peek(I, s, THIS, cls, 'currentSolution')
                    report('the current solution is the initial guess', [v[1] for v in x] == [Poly.atom(('V', nm))], '', '')
                return out
            sts = guess(sts, 'g', True)
            k = 0
            for op in hist:
                if op == 'i':
                    nxt = []
                    for s in sts:
                        cl.gset(s, 'it', Poly.const(k))
                        for s2, v in I.run(f, THIS, [Poly.const(k)], s):
                            want = cl.ghost(s2, 'status')
                            al = cl.ghost(s2, 'ratio')
                            if want == its['ContinueIterations'] and al == ZERO:
                                want = its['Diverged']
                            report('the outcome of an iteration is the estimated one, unless it gets stuck', v == want, '', 'got %s, expected %s' % (tstr_(v), tstr_(want)))
                            x = peek(I, s2, THIS, cls, 'currentSolution')
                            report('the current solution is the new point', [w[1] for w in x] == [cl.ghost(s2, 'x')], '', '')
                            r = peek(I, s2, THIS, cls, 'currentResidual')
                            report('the current residual is that of the new point', [w[1] for w in r] == [cl.F(s2, cl.ghost(s2, 'x'))], '', '%s at %s' % (tstr_(r), tstr_(cl.ghost(s2, 'x'))))
                            a = peek(I, s2, THIS, cls, 'currentStepRatio')
                            report('the step ratio is that of the line search', a == [al], '', tstr_(a))
                            ctx.count('iteration paths')
                            if v == its['ContinueIterations']:
                                nxt.append(s2)
                    sts = I.dedupe(nxt)
                    k += 1
                elif op == 'r':
                    sts = each(I, sts, THIS, cls, 'reset', [False])
                    k = 0
                elif op in 'gG':
                    sts = guess(sts, 'g2', op == 'g')
                    k = 0
                elif op == 'm':
                    sts = share(I, sts, THIS, cls, 'setMapping', ('sym', 'mapping2'))
                    for s in sts:
                        cl.gset(s, 'map', True)
            report('iterations end regularly', not I.exc, '', 'a path leaves with an exception')
    ctx.floor('iteration paths', ctx.counts.get('iteration paths', 0), 20)


def newton_iteration(ctx):
    """Forward abstract interpretation of line search, error estimator and iteration performer: the mapping is an
    uninterpreted function, the other collaborators are arbitrary; path conditions over norms are convex polyhedra."""
    linear_search(ctx)
    estimator(ctx)
    performer(ctx)
