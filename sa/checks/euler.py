from steps import *
from checks.protocol import collaborators

N1 = Poly.atom(('size', 'n1')); N2 = Poly.atom(('size', 'n2'))
AL = Poly.atom('alpha')


class Sizes:
    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        if q == N + 'OdeRhs::secondOrderVarCount':
            return [(st, self.n2)]
        if q == N + 'OdeRhs::firstOrderVarCount':
            return [(st, N1)]
        if q == N + 'OdeRhs::varCount':
            return [(st, N1 + self.n2.scale(2))]
        return super().vcall(I, st, fr, n, fid, ol, args)


class MapClient(Sizes, SolverClient):
    def __init__(self, n2):
        SolverClient.__init__(self)
        self.n2 = n2


class Form:
    """Block-wise canonical forms of vectors over right-hand-side evaluations: full states are (positions, velocities,
    first order variables), equation states are (velocities, first order variables)."""

    def __init__(self, n2):
        self.n2 = n2
        self.memo = {}

    def full(self, p):
        n2 = self.n2
        return tuple(self.canon(absint.blk(p, f, s)) for f, s in ((ZERO, n2), (n2, n2), (n2.scale(2), N1)))

    def eqn(self, p):
        n2 = self.n2
        return tuple(self.canon(absint.blk(p, f, s)) for f, s in ((ZERO, n2), (n2, N1)))

    def canon(self, p):
        r = self.memo.get(p)
        if r is None:
            r = p.map_atoms(self.atom)
            self.memo[p] = r
        return r

    def atom(self, a):
        if not is_v(a) or not isinstance(a[1], tuple) or not a[1]:
            return None
        x = a[1]
        if x[0] == 'F':
            return Poly.atom(('V', ('F*', x[1]) + self.full(x[2]))) if isinstance(x[2], Poly) else None
        if isinstance(x[0], tuple) and x[0] and x[0][0] == 'F':
            return Poly.atom(('V', ('F*', x[0], x[1]) + self.full(x[2])))
        if x[0] == 'blk':
            inner = x[1] if isinstance(x[1], Poly) else Poly.atom(x[1])
            return absint.blk(self.canon(inner), x[2], x[3])
        return None

    # the oracle
    def state(self, y, x0, h, al):
        """full state belonging to equation state y"""
        u0, v0, z0 = self.full(x0)
        v, z = self.eqn(y)
        return (u0 + h * (ONE - al) * v0 + h * al * v, v, z)

    def F(self, tag, t, parts):
        a = ('V', ('F*',) + ((tag,) if tag else ()) + (t,) + tuple(parts))
        return tuple(absint.blk(Poly.atom(a), f, s) for f, s in ((self.n2, self.n2), (self.n2.scale(2), N1)))

    def residual(self, y, t0, x0, h, al, tag=None):
        f0 = self.F(tag, t0, self.full(x0))
        f1 = self.F(tag, t0 + h, self.state(y, x0, h, al))
        yb = self.eqn(y)
        x0b = self.full(x0)[1:]
        return tuple(self.canon(yb[i] - x0b[i] - h * (ONE - al) * f0[i] - h * al * f1[i]) for i in (0, 1))


def show(parts):
    return ' | '.join(tstr(x)[:150] for x in parts)


def vatom(*a):
    return Poly.atom(('V',) + a)


def mapping_level(ctx, p, form, n2, what):
    """the step mapping on its own, through histories of changes"""
    y = (('R', 'y'),); d = (('R', 'dst'),); this = (('R', 'this'),)
    for cls in [c for c in p.subclasses(N + 'OdeStepMapping<' + VD + '>') if any(b['name'].startswith('ctm::FactoryMixin<') for b in p.classes[c]['bases'])]:
        name = short(cls)
        cl = MapClient(n2)
        I = Interp(p, cl)
        sts = new_object(I, State(), this, cls)
        total = N1 + n2.scale(2)

        def rhs(sts, nm):
            return share(I, sts, this, cls, 'setOdeRhs', ('sym', nm))

        def state(sts, t, x):
            loc = (('R', x),)
            for s in sts:
                put_vec(s, loc, x, total)
            return each(I, sts, this, cls, 'setInitialState', [t, ('ref', loc)])

        def step(sts, h):
            for s in sts:
                I.assume(s, ('cmp', '<', -h), True)
            return each(I, sts, this, cls, 'setTimeStep', [h])
        cur = {'t0': T0, 'x0': 'x0', 'h': H0, 'al': AL, 'tag': None}
        sts = rhs(sts, 'rhs')
        sts = state(sts, T0, 'x0')
        sts = step(sts, H0)
        sts = each(I, sts, this, cls, 'setImplicitnessParameter', [AL])
        hist = [('first use', None), ('unchanged', None),
                ('new time step', lambda s: (step(s, Poly.atom('h1')), cur.update(h=Poly.atom('h1')))),
                ('new implicitness', lambda s: (each(I, s, this, cls, 'setImplicitnessParameter', [Poly.atom('al1')]), cur.update(al=Poly.atom('al1')))),
                ('new initial state', lambda s: (state(s, Poly.atom('t1'), 'x1'), cur.update(t0=Poly.atom('t1'), x0='x1'))),
                ('new right-hand side', lambda s: (rhs(s, 'rhs2'), cur.update(tag=('F', (('P', 'rhs2'),)))))]
        for ev, act in hist:
            if act:
                sts = act(sts)[0]
            for s in sts:
                put_vec(s, y, 'y', N1 + n2); put_vec(s, d, 'dst', N1 + n2)
            nxt = []
            Y, X0 = vatom('y'), vatom(cur['x0'])
            subj = '%s, %s, %s' % (name, what, ev)
            for s in sts:
                for m, w in (('inputSize', N1 + n2), ('outputSize', N1 + n2)):
                    v = getv(I, s, this, cls, m, 'unsigned')
                    ctx.ob('equation has one unknown per first order and per second order variable', subj, v == [w], method(p, cls, m, 0).rloc(), '%s is %s' % (m, tstr(v[0])[:60]))
                f = method(p, cls, 'map', 2)
                for s2, _ in I.run(f, this, [('ref', d), ('ref', y)], s):
                    v = I.read_vec(s2, d, '', None, None)
                    got, want = form.eqn(v[1]), form.residual(Y, cur['t0'], X0, cur['h'], cur['al'], cur['tag'])
                    ctx.ob('residual of the implicit step', subj, got == want and v[2] == N1 + n2, f.rloc(), 'got %s, expected %s' % (show(got), show(want)))
                    nxt.append(s2)
                f = method(p, cls, 'computeOdeState', 2)
                o = (('R', 'o'),)
                s3 = s.copy(); put_vec(s3, o, 'o', total)
                for s2, _ in I.run(f, this, [('ref', o), ('ref', y)], s3):
                    v = I.read_vec(s2, o, '', None, None)
                    got, want = form.full(v[1]), form.state(Y, X0, cur['h'], cur['al'])
                    ctx.ob('full state belonging to a solution of the step equation', subj, got == want and v[2] == total, f.rloc(), 'got %s, expected %s' % (show(got), show(want)))
                f = method(p, cls, 'computeEqnState', 2)
                s3 = s.copy(); put_vec(s3, o, 'o', N1 + n2)
                w = (('R', 'w'),); put_vec(s3, w, 'w', total)
                for s2, _ in I.run(f, this, [('ref', o), ('ref', w)], s3):
                    v = I.read_vec(s2, o, '', None, None)
                    got, want = form.eqn(v[1]), form.full(vatom('w'))[1:]
                    ctx.ob('equation state of a full state', subj, got == want, f.rloc(), 'got %s, expected %s' % (show(got), show(want)))
                f = method(p, cls, 'eqnInitialState', 0)
                for s2, v in I.run(f, this, [], s.copy()):
                    v = v if v[0] == 'vec' else I.read_vec(s2, v[1], '', None, None)
                    got, want = form.eqn(v[1]), form.full(X0)[1:]
                    ctx.ob('equation state of the initial state', subj, got == want, f.rloc(), 'got %s, expected %s' % (show(got), show(want)))
            if I.exc:
                e = I.exc[0]
                ctx.ob('the step equation can always be evaluated', subj, False, e[3].where(e[2]) if e[3] else '', 'throws')
            sts = nxt
            if not sts:
                break
        ctx.count('step mappings')


class ImplClient(Sizes, StepClient):
    """The nonlinear solver is given a mapping and finds a root of it, or fails."""
    form = None
    report = None
    al = None

    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        nm = q.rsplit('::', 1)[-1]
        if nm in ('setComponent', 'setMapping') and args and 'VectorMapping<' in str(n.get('fn')).split('(', 1)[-1] and not self.probe:
            v = self.pointee(I, st, args[0])
            if ol == (('P', 'reorder'),):
                self.gput(st, 'rmap', v)
                return [(st, None)]
            elif ol is not None and ol[:len(self.me)] != self.me:
                self.gput(st, 'comp', v)
        if q.startswith(N + 'NewtonSolver'):
            if nm == 'run':
                return self.run(I, st, fr, n, ol)
            if nm == 'currentSolution':
                loc = (('R', 'root'),)
                return [(st, ('ref', loc))]
        if q.startswith(N + 'VectorReorderingMapping::') and nm in ('orderInput', 'unorderInput'):
            src = I.read_vec(st, args[-1][1], '', fr, n)
            a = src[1]
            b = None
            if nm == 'unorderInput' and len(a.t) == 1:
                at, = a.atoms()
                if is_v(at) and isinstance(at[1], tuple) and at[1][0] == 'perm' and a == Poly.atom(at):
                    b = at[1][1]
            v = ('vec', b if b is not None else Poly.atom(('V', ('perm' if nm == 'orderInput' else 'unperm', a))), src[2])
            if len(args) == 2:
                I.write_vec(st, args[0][1], v, fr, n) if False else I.write(st, args[0][1], v, fr, n)
                return [(st, None)]
            loc = I.temp(fr, n)
            I.drop(st, loc)
            st.store[loc] = v
            return [(st, ('agg', loc))]
        return super().vcall(I, st, fr, n, fid, ol, args)

    def run(self, I, st, fr, n, ol):
        h, t, x = self.gget(st, 'h'), self.gget(st, 't'), self.gget(st, 'x')
        w = fr.where(n)
        c = self.gget(st, 'comp')
        if self.reorder and c == ('sym', 'reorder'):
            c = self.gget(st, 'rmap')
        elif self.reorder:
            c = None
        y = vatom('y')
        if c is None or c[0] != 'ref':
            self.report('the equation solved is the step equation of the attempt', False, w, 'the solver works on %s' % tstr(c)[:100])
        else:
            mcls = st.store.get(c[1] + DYN)
            s = st.copy()
            ly = (('R', 'yprobe'),); ld = (('R', 'dprobe'),)
            put_vec(s, ly, 'y', N1 + self.n2); put_vec(s, ld, 'd', N1 + self.n2)
            save, arm = I.exc, self.report
            I.exc = []
            sub = self.probe
            self.probe = True
            try:
                res = I.run(method(I.p, mcls, 'map', 2), c[1], [('ref', ld), ('ref', ly)], s)
            finally:
                I.exc = save
                self.probe = sub
            for s2, _ in res:
                eq = equalities(s2)
                v = subst(I.read_vec(s2, ld, '', None, None)[1], eq)
                got, want = self.form.eqn(v), self.form.residual(y, subst(t, eq), subst(x[1], eq), subst(h, eq), self.al)
                self.report('the equation solved is the step equation of the attempt', got == want, w, 'got %s, expected %s' % (show(got), show(want)))
        i = I.fresh(st, ('run', I.uid(n)))
        r = ('V', ('root', i))
        re = self.get(st, 're', False)
        put = ('vec', Poly.atom(('V', ('perm', Poly.atom(r)))) if self.reorder else Poly.atom(r), N1 + self.n2)
        st.store[(('R', 'root'),)] = put
        self.gput(st, 'root', ('vec', Poly.atom(r), N1 + self.n2))
        self.gput(st, 'status', Poly.atom(('status', i)))
        return [(st, Poly.atom(('status', i)))]
    probe = False
    reorder = False

    def pointee(self, I, st, a):
        for _ in range(3):
            if isinstance(a, tuple) and a and a[0] in ('ref', 'agg') and st.store.get(a[1] + DYN) is None:
                b = st.store.get(a[1])
                if b is None:
                    break
                a = b
        return a

    def expected(self, st):
        r, h, x = self.gget(st, 'root'), self.gget(st, 'h'), self.gget(st, 'x')
        return None if r is None else self.form.state(r[1], x[1], h, self.al)

    def step_end(self, I, st, fr, n, args):
        x2 = self.vec(I, st, args[1], fr, n)
        want = self.expected(st)
        got = self.form.full(x2[1])
        self.report('the proposed state belongs to the solution found', got == want, fr.where(n), 'got %s, expected %s' % (show(got), show(want or ())))
        return super().step_end(I, st, fr, n, args)

    def post(self, I, st, fr, n, args):
        x = self.visible(I, st, 'initialState')
        if not self.get(st, 'ended', False):
            want = self.expected(st)
            got = self.form.full(x[1])
            self.report('the committed state belongs to the solution found', got == want, fr.where(n), 'got %s, expected %s' % (show(got), show(want or ())))
        s = self.gget(st, 'status')
        self.report('a step is committed only if the solver converged', s is not None and I.holds(st, ('cmp', '==', s - self.converged)) is True, fr.where(n), 'status %s is not known to be success' % tstr(s)[:60])
        return super().post(I, st, fr, n, args)


def enum_value(p, name, within):
    for f in p.fns.values():
        for n in walk([f.body, f.inits]):
            if n.get('lk') == 'e' and n.get('n') == name and within in (n.get('t') or ''):
                return Poly.const(int(n['v']))
    raise AnalysisError('enumerator %s vanished' % name)


def solver_level(ctx, p, form, n2, what):
    this = (('R', 'this'),)
    total = N1 + n2.scale(2)
    for cls in solver_classes(p):
        if not has_method(p, cls, 'newtonSolver') or not has_method(p, cls, 'setReorder'):
            continue
        name = short(cls)
        where = method(p, cls, 'doStep', 0).rloc()
        conv = enum_value(p, 'Converged', 'NewtonSolverInterface')
        for ec in ('null', 'sym'):
            for reorder in (False, True):
                for pred in (False, True):
                    subj = '%s, %s, %s event control, %s reordering, %s predictor' % (name, what, *('with' if b else 'without' for b in (ec == 'sym', reorder, pred)))
                    cur = ['']

                    def report(rule, ok, w, det):
                        ctx.ob(rule, '%s, %s' % (subj, cur[0]), ok, w, det)
                    cl = ImplClient(lambda *a: None, cls, this, n2)
                    cl.form = form; cl.report = report; cl.al = AL; cl.converged = conv; cl.reorder = reorder; cl.n2 = n2
                    I, sts = solver_setup(p, cls, cl, ec=ec)
                    for s in sts:
                        I.assume(s, ('cmp', '<', -H0), True)
                    if reorder:
                        sts = share(I, sts, this, cls, 'setReorder', ('sym', 'reorder'))
                    for s in sts:
                        for fc, f, t in param_members(p, cls):
                            if 'OdeSolver<' in t and kind(t) != 'num':
                                v = ('sym', 'predictor')
                                s.facts[('nn', v)] = pred
                                s.store[this + (('f', fc, f),)] = v if pred else ('null',)
                            elif kind(t) == 'num':
                                s.store[this + (('f', fc, f),)] = Poly.const(2)
                    sts = set_state(I, sts, this, cls, size=total)
                    # the implicitness is any number
                    nxt = []
                    for s in sts:
                        m = cl.gget(s, 'rmap') if reorder else cl.gget(s, 'comp')
                        if not (isinstance(m, tuple) and m and m[0] == 'ref'):
                            ctx.ob('the nonlinear solver works on the step equation', subj, False, where, 'its mapping is %s' % tstr(m)[:100])
                            continue
                        nxt.extend(each(I, [s], m[1], s.store[m[1] + DYN], 'setImplicitnessParameter', [AL]))
                    sts = nxt
                    for k, w in enumerate(('first step', 'second step', 'step after a new start')):
                        cur[0] = w
                        if k == 2:
                            sts = set_state(I, sts, this, cls, t=Poly.atom('t0b'), x='x0b', size=total)
                        for s in sts:
                            s.auto = phase(ec=True if ec == 'sym' else None)
                            s.store.pop(g('hnext'), None)
                            arm(cl, I, s)
                        sts = I.dedupe(each(I, sts, this, cls, 'doStep'))
                        if not sts:
                            ctx.ob('a step completes', subj + ', ' + w, False, where, 'no path of the step completes')
                        ctx.count('step paths', len(sts))


def has_method(p, cls, nm):
    return any(m['name'] == nm for b in p.bases(cls) for m in p.classes.get(b, {'methods': []})['methods'])


def implicit_euler(ctx):
    """Forward abstract interpretation of the step mapping (through histories of changes of its inputs) and of the
    steps of the solver built on it, over linear forms whose atoms are right-hand-side evaluations and the root found by
    the nonlinear solver, for systems with and without second order variables."""
    p = ctx.p
    for n2, what in ((ZERO, 'first order system'), (N2, 'system with second order variables')):
        form = Form(n2)
        mapping_level(ctx, p, form, n2, what)
        solver_level(ctx, p, form, n2, what)
    ctx.floor('step mappings', ctx.counts.get('step mappings', 0), 2)
    ctx.floor('step paths', ctx.counts.get('step paths', 0), 24)
