"""Typestate analysis of one integration step: the order and the arguments of the calls by which a solver reports to
its observers, consults the error norm / step size control / event control, and commits its new state."""
from mats import *
from terms import tstr

G = ('R', '#step')
FX = ('f', '#', '')


def g(name):
    return (G, ('f', '#', name))


class Phase(tuple):
    pass


def phase(**k):
    return tuple(sorted((a, b) for a, b in k.items() if b is not None))


class StepClient(MatClient):
    """st.auto: discrete progress of the current attempt; ghost locations hold the values the rules compare, so that
    they take part in the same merging and loop summarisation as the program's own variables."""
    max_states = 60

    def __init__(self, rep, cls, this, n2=ZERO):
        MatClient.__init__(self)
        self.rep = rep          # rep(group, rule, ok, where, detail)
        self.cls = cls
        self.me = this
        self.n2 = n2; self.n1 = NV - n2.scale(2)

    # ---- bookkeeping
    def get(self, st, k, d=None):
        return dict(st.auto or ()).get(k, d)

    def put(self, st, **kv):
        d = dict(st.auto or ())
        for k, v in kv.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        st.auto = tuple(sorted(d.items()))

    def gput(self, st, name, v):
        st.store[g(name)] = v

    def gget(self, st, name):
        return st.store.get(g(name))

    def ob(self, group, rule, ok, I, fr, n, det=''):
        self.rep(group, rule, ok, fr.where(n) if fr else '', det)

    def same(self, I, st, a, b):
        """are two values equal on this path"""
        if a == b:
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            if a == b:
                return True
            eq = equalities(st)
            if eq and subst(a, eq) == subst(b, eq):
                return True
            return I.holds(st, ('cmp', '==', a - b)) is True
        if isinstance(a, tuple) and a and a[0] == 'vec' and isinstance(b, tuple) and b and b[0] == 'vec':
            return self.same(I, st, a[1], b[1])
        if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
            ta, tb = self.truth(I, st, a), self.truth(I, st, b)
            return ta is not None and ta == tb
        return False

    def truth(self, I, st, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Poly):
            c = v.cval()
            return None if c is None else c != 0
        if not isinstance(v, tuple):
            return None
        return I.holds(st, v)

    def visible(self, I, st, name):
        v = peek(I, st, self.me, self.cls, name)
        return v[0] if len(v) == 1 else None

    def val(self, I, st, a, t='double'):
        if isinstance(a, tuple) and a and a[0] == 'ref':
            return I.read(st, a[1], t)
        return a

    def vec(self, I, st, a, fr, n):
        if isinstance(a, tuple) and a and a[0] in ('ref', 'agg'):
            return I.read_vec(st, a[1], '', fr, n)
        return a

    # ---- events
    def notify(self, I, st, fr, n, ol, args):
        if ol[:len(self.me)] != self.me:
            return
        nm = ol[-1][2] if isinstance(ol[-1], tuple) and ol[-1][0] == 'f' else ''
        if nm == 'odeSolverPreObservers':
            self.pre(I, st, fr, n, args)
        elif nm == 'odeSolverPostObservers':
            self.post(I, st, fr, n, args)

    def pre(self, I, st, fr, n, args):
        h = self.val(I, st, args[0])
        ph = self.get(st, 'ph', 'idle')
        self.ob('notify', 'attempts do not nest: one announcement per attempt', ph == 'idle', I, fr, n, 'announced while the previous attempt is %s' % ph)
        s = args[1]
        me = self.solver_is_me(I, st, s)
        self.ob('notify', 'announced solver is the stepping solver', me, I, fr, n, 'solver argument is %s' % tstr(s)[:80])
        first = self.get(st, 'first', True)
        want = self.gget(st, 'hnext')
        if want is not None:
            self.ob('notify', 'announced step size is the step size chosen for the attempt', self.same(I, st, h, want), I, fr, n,
                    'announced %s, chosen %s' % (tstr(h)[:100], tstr(want)[:100]))
        t, x = self.visible(I, st, 'initialTime'), self.visible(I, st, 'initialState')
        if self.gget(st, 't') is not None:
            ok = self.same(I, st, t, self.gget(st, 't')) and self.same(I, st, x, self.gget(st, 'x'))
            self.ob('commit', 'state visible at the start of an attempt is the last accepted one', ok, I, fr, n,
                    'time %s state %s, last accepted %s %s' % (tstr(t)[:60], tstr(x)[:80], tstr(self.gget(st, 't'))[:60], tstr(self.gget(st, 'x'))[:80]))
        self.gput(st, 'h', h)
        self.gput(st, 't', t); self.gput(st, 'x', x)
        for k in ('norm', 'acc', 'chg', 'hnew', 'trunc', 'izf', 'tt', 't2', 'x2', 'errv'):
            st.store.pop(g(k), None)
        st.auto = phase(ph='open', n=min(self.get(st, 'n', 0) + 1, 2), ec=self.get(st, 'ec'))

    def solver_is_me(self, I, st, s):
        if isinstance(s, tuple) and s and s[0] == 'ref':
            return s[1] == self.me or s[1][:len(self.me)] == self.me
        return False

    def post(self, I, st, fr, n, args):
        a = args[0]
        loc = a[1]
        pc = [c for c in I.p.classes if c.startswith(N + 'OdeSolverPostObserverArg<' + VD)]
        if not pc:
            raise AnalysisError('OdeSolverPostObserverArg vanished')
        r = {}
        for nm in ('stepSize', 'stepAccepted', 'stepSizeChanged', 'stepTruncated', 'errorNorm', 'izfTrunc', 'transitionType', 'solver'):
            v = peek(I, st, loc, pc[0], nm)
            r[nm] = v[0] if len(v) == 1 else None
        ph = self.get(st, 'ph', 'idle')
        self.ob('notify', 'every attempt is reported once, after its announcement', ph != 'idle', I, fr, n, 'reported without an announcement')
        S = self.same
        h = self.gget(st, 'h')
        acc = self.gget(st, 'acc'); chg = self.gget(st, 'chg')
        acc = True if acc is None else acc
        chg = False if chg is None else chg
        def chk(rule, got, want, group='notify'):
            self.ob(group, rule, S(I, st, got, want), I, fr, n, 'reported %s, is %s' % (tstr(got)[:120], tstr(want)[:120]))
        chk('reported step size is the step size of the attempt', r['stepSize'], h)
        chk('reported acceptance is the decision of the step size control', r['stepAccepted'], acc)
        chk('reported step size change is the decision of the step size control', r['stepSizeChanged'], chg)
        ta = self.truth(I, st, acc)
        ended = self.get(st, 'ended', False)
        trunc = self.gget(st, 'trunc') if ended else False
        chk('reported truncation is the answer of the event control', r['stepTruncated'], trunc)
        if self.truth(I, st, trunc):
            chk('reported event index is the one found by the event control', r['izfTrunc'], self.gget(st, 'izf'))
            chk('reported transition is the one found by the event control', r['transitionType'], self.gget(st, 'tt'))
        elif not ended:
            chk('no event is reported when none was looked for', r['transitionType'], ZERO)
        nv = self.gget(st, 'norm')
        chk('reported error norm is the norm of the error estimate', r['errorNorm'], ZERO if nv is None else nv)
        self.ob('notify', 'reporting solver is the stepping solver', self.solver_is_me(I, st, r['solver']), I, fr, n, 'solver is %s' % tstr(r['solver'])[:80])
        # commit
        t, x = self.visible(I, st, 'initialTime'), self.visible(I, st, 'initialState')
        t0, x0 = self.gget(st, 't'), self.gget(st, 'x')
        if ta is None:
            self.ob('commit', 'attempt is either accepted or rejected', False, I, fr, n, 'acceptance is %s' % tstr(acc)[:100])
        elif not ta:
            self.ob('commit', 'a rejected attempt leaves time and state unchanged', S(I, st, t, t0) and S(I, st, x, x0), I, fr, n,
                    'time %s state %s, before %s %s' % (tstr(t)[:60], tstr(x)[:100], tstr(t0)[:60], tstr(x0)[:60]))
            self.ob('event', 'end-of-step event detection runs for accepted attempts only', not ended, I, fr, n, 'atStepEnd called in a rejected attempt')
        else:
            if ended:
                self.ob('commit', 'an accepted step commits the time and state left by the event control', S(I, st, t, self.gget(st, 't2')) and S(I, st, x, self.gget(st, 'x2')), I, fr, n,
                        'time %s state %s, event control left %s %s' % (tstr(t)[:60], tstr(x)[:100], tstr(self.gget(st, 't2'))[:60], tstr(self.gget(st, 'x2'))[:60]))
            else:
                self.ob('commit', 'an accepted step advances time by the step size of the attempt', isinstance(t, Poly) and isinstance(h, Poly) and S(I, st, t, t0 + h), I, fr, n,
                        'time %s, was %s, step size %s' % (tstr(t)[:60], tstr(t0)[:60], tstr(h)[:60]))
                self.ob('commit', 'an accepted step replaces the state', not S(I, st, x, x0), I, fr, n, 'state is still the old one')
            if self.get(st, 'ec'):
                self.ob('event', 'every accepted attempt runs end-of-step event detection', ended, I, fr, n, 'accepted without atStepEnd')
        self.gput(st, 't', t); self.gput(st, 'x', x)
        hn = self.gget(st, 'hnew')
        if self.truth(I, st, chg):
            thr = self.visible(I, st, 'stepSizeMinThreshold')
            self.ob('control', 'no step is continued with a step size at or below the minimum', I.holds(st, ('cmp', '<=', hn - thr)) is False, I, fr, n,
                    'new step size %s, minimum %s' % (tstr(hn)[:60], tstr(thr)[:60]))
        self.gput(st, 'hnext', hn if self.truth(I, st, chg) else h)
        if self.get(st, 'ec'):
            self.ob('event', 'every attempt is preceded by start-of-step event bookkeeping', self.get(st, 'started', False), I, fr, n, 'attempt without atStepStart')
        st.auto = phase(ph='idle', n=self.get(st, 'n', 0), ec=self.get(st, 'ec'), last=ta)

    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        if q == N + 'OdeRhs::secondOrderVarCount':
            return [(st, self.n2)]
        if q == N + 'OdeRhs::firstOrderVarCount':
            return [(st, self.n1)]
        if q == N + 'ErrorNormCalculator::errorNorm':
            i = I.fresh(st, ('norm', I.uid(n)))
            v = Poly.atom(('norm', i))
            self.gput(st, 'norm', v)
            self.gput(st, 'errv', self.vec(I, st, args[0], fr, n))
            return [(st, v)]
        if q == N + 'OdeStepSizeController::controlStepSize':
            return self.control(I, st, fr, n, args)
        if q == N + 'OdeEventController::atStepStart':
            return self.step_start(I, st, fr, n, args)
        if q == N + 'OdeEventController::atStepEnd':
            return self.step_end(I, st, fr, n, args)
        if q == N + 'OdeEventController::reset':
            self.put(st, reset=True)
            return [(st, None)]
        if q == N + 'OdeRhs::beforeStep':
            self.before_step(I, st, fr, n, args)
            return [(st, None)]
        if q == N + 'NewtonSolverInterface::run' or q == N + 'NewtonSolver::run':
            i = I.fresh(st, ('run', I.uid(n)))
            return [(st, Poly.atom(('status', i)))]
        if q.startswith(N + 'OdeSolver') and ol is not None and ol[:len(self.me)] != self.me and not self.part_of(ol):
            r = self.sub(I, st, fr, n, q.rsplit('::', 1)[1], ol, args)
            if r is not None:
                return r
        return MatClient.vcall(self, I, st, fr, n, fid, ol, args)

    def part_of(self, ol):
        return ol[0][0] in ('L', 'T')

    def sub(self, I, st, fr, n, nm, ol, args):
        """a nested solver (reference solver, predictor): an arbitrary solver of its own"""
        if nm in ('setInitialState', 'setInitialStepSize', 'doStep', 'setOdeRhs'):
            return [(st, None)]
        if nm == 'initialState':
            loc = I.temp(fr, n)
            I.drop(st, loc)
            st.store[loc] = ('vec', Poly.atom(('V', ('sub', I.fresh(st, ('sub', I.uid(n)))))), NV)
            return [(st, ('agg', loc))]
        if nm == 'order':
            return [(st, Poly.atom(('suborder',)))]
        if nm == 'initialTime':
            return [(st, Poly.atom(('subtime', I.fresh(st, ('sub', I.uid(n))))))]
        return None

    def before_step(self, I, st, fr, n, args):
        t, x = self.val(I, st, args[0]), self.vec(I, st, args[1], fr, n)
        ok = self.same(I, st, t, self.gget(st, 't')) and (self.same(I, st, x, self.gget(st, 'x')) or self.is_hidden(x))
        self.ob('event', 'the right-hand side is told the time and state the attempt starts from', ok, I, fr, n,
                'told %s %s' % (tstr(t)[:60], tstr(x)[:100]))

    def is_hidden(self, x):
        return False

    def step_start(self, I, st, fr, n, args):
        x, t = self.vec(I, st, args[0], fr, n), self.val(I, st, args[1])
        ph = self.get(st, 'ph', 'idle')
        self.ob('event', 'start-of-step event bookkeeping runs inside an announced attempt', ph == 'open', I, fr, n, 'phase is %s' % ph)
        self.ob('event', 'start-of-step event bookkeeping runs once per attempt', not self.get(st, 'started', False), I, fr, n, 'called twice')
        ok = self.same(I, st, t, self.gget(st, 't')) and (self.same(I, st, x, self.gget(st, 'x')) or self.is_hidden(x))
        self.ob('event', 'event bookkeeping starts from the state the attempt starts from', ok, I, fr, n,
                'given %s %s, attempt starts from %s %s' % (tstr(t)[:60], tstr(x)[:100], tstr(self.gget(st, 't'))[:60], tstr(self.gget(st, 'x'))[:100]))
        self.put(st, started=True)
        return [(st, None)]

    def step_end(self, I, st, fr, n, args):
        x1 = self.vec(I, st, args[0], fr, n)
        x2 = self.vec(I, st, args[1], fr, n)
        t2 = self.val(I, st, args[2])
        h, t0 = self.gget(st, 'h'), self.gget(st, 't')
        self.ob('event', 'end-of-step event detection runs at most once per attempt', not self.get(st, 'ended', False), I, fr, n, 'called twice')
        self.ob('event', 'end-of-step event detection follows start-of-step bookkeeping', self.get(st, 'started', False), I, fr, n, 'atStepEnd without atStepStart')
        self.ob('event', 'end-of-step event detection gets the state the attempt started from', self.same(I, st, x1, self.gget(st, 'x')) or self.is_hidden(x1), I, fr, n,
                'given %s' % tstr(x1)[:120])
        self.ob('event', 'end-of-step event detection gets the time at the end of the attempt',
                isinstance(t2, Poly) and isinstance(h, Poly) and isinstance(t0, Poly) and self.same(I, st, t2, t0 + h), I, fr, n,
                'given %s, attempt from %s with step size %s' % (tstr(t2)[:80], tstr(t0)[:60], tstr(h)[:60]))
        acc = self.gget(st, 'acc')
        ta = True if acc is None else self.truth(I, st, acc)
        self.ob('event', 'end-of-step event detection runs for accepted attempts only', ta is True, I, fr, n, 'acceptance is %s' % tstr(acc)[:60])
        t, x = self.visible(I, st, 'initialTime'), self.visible(I, st, 'initialState')
        self.ob('commit', 'nothing is committed before event detection', self.same(I, st, t, t0) and self.same(I, st, x, self.gget(st, 'x')), I, fr, n,
                'visible time %s' % tstr(t)[:80])
        i = I.fresh(st, ('ev', I.uid(n)))
        outs = []
        for tr in (False, True):
            s = st.copy()
            s.store[g('trunc')] = tr
            self.put(s, ended=True)
            loc2 = args[1][1]
            if tr:
                v = ('vec', Poly.atom(('V', ('xev', i))), x2[2] if isinstance(x2, tuple) and x2[0] == 'vec' else NV)
                I.write(s, loc2, v, fr, n)
                I.write(s, args[2][1], Poly.atom(('tev', i)), fr, n)
                for k, (a, nm) in enumerate(zip(args[4:6], ('izf', 'tt'))):
                    if isinstance(a, tuple) and a and a[0] == 'ref':
                        I.write(s, a[1], Poly.atom((nm, i)), fr, n)
                    s.store[g(nm)] = Poly.atom((nm, i))
            s.store[g('t2')] = self.val(I, s, args[2])
            s.store[g('x2')] = self.vec(I, s, args[1], fr, n)
            if tr:
                s.store[g('epoch')] = Poly.atom(('epoch', i))
            outs.append((s, tr))
        return outs

    def control(self, I, st, fr, n, args):
        a = [self.val(I, st, x) for x in args]
        h = self.gget(st, 'h')
        self.ob('control', 'step size control judges the step size of the attempt', self.same(I, st, a[0], h), I, fr, n,
                'given %s, attempted %s' % (tstr(a[0])[:100], tstr(h)[:100]))
        nv = self.gget(st, 'norm')
        self.ob('control', 'step size control judges the error norm of the attempt', nv is not None and self.same(I, st, a[1], nv), I, fr, n,
                'given %s' % tstr(a[1])[:100])
        self.estimate(I, st, fr, n, a)
        outs = control_result(I, st, fr, n, args)
        for s, v in outs:
            loc = v[1]
            f = {x[-1][2]: s.store[x] for x in I.subtree(s, loc) if len(x) == len(loc) + 1 and isinstance(x[-1], tuple) and x[-1][0] == 'f'}
            s.store[g('acc')] = f['acceptStep']; s.store[g('chg')] = f['changeStepSize']; s.store[g('hnew')] = f['newStepSize']
            self.put(s, judged=True)
        return outs

    def estimate(self, I, st, fr, n, a):
        pass


def finish(cl, I, s, ret):
    """obligations at the normal return of doStep"""
    where = ''
    ph = cl.get(s, 'ph', 'idle')
    cl.rep('notify', 'every announced attempt is reported before the step returns', ph == 'idle' and cl.get(s, 'n', 0) > 0, ret,
           'returns with an attempt that is %s' % ph)
    cl.rep('commit', 'a step returns only after an accepted attempt', cl.get(s, 'last') is True, ret, 'last attempt accepted: %s' % cl.get(s, 'last'))
    t, x = cl.visible(I, s, 'initialTime'), cl.visible(I, s, 'initialState')
    cl.rep('commit', 'state visible after the step is the committed one', cl.same(I, s, t, cl.gget(s, 't')) and cl.same(I, s, x, cl.gget(s, 'x')), ret,
           'time %s state %s' % (tstr(t)[:60], tstr(x)[:100]))


def arm(cl, I, s, h=None):
    """before doStep: the committed state, and the step size the first attempt has to use"""
    s.auto = phase(ph='idle', n=0, ec=cl.get(s, 'ec'))
    cl.gput(s, 't', cl.visible(I, s, 'initialTime'))
    cl.gput(s, 'x', cl.visible(I, s, 'initialState'))
    if h is not None:
        cl.gput(s, 'hnext', h)
