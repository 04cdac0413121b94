"""The driver: configuration applied to solvers, steps made until the end of the time interval, outputs told."""
import itertools
from absint import BASE
from checks.params import PClient, PRun, VAL
from checks.paramtext import VClient, num
import exact
from harness import q_of, new_object, VD
from program import AnalysisError
from terms import Poly, ZERO, ONE

SC = 'verif_entry::DrScene'
ROOT = (("R", "s"),)


def F(c, n):
    return ("f", c, n)


SIZE = (F("std", "#size"),)
NEVER = 99


class DrClient(VClient):
    dynamic_types = True
    peel = True
    peel_to = 8

    end = None          # of the time interval
    told = 0            # number of outputs
    tloc = None         # where the time of the solver is

    def loop_head(self, I, st, fr, node):
        # the typestate tells the side of the end of the interval the time is on
        if self.tloc and st.auto in ('before', 'reached'):
            d = st.store[self.tloc] - self.end
            I.assume(st, ('cmp', '<', d), st.auto == 'before')

    def step(self, I, st, fr, n, loc):
        where = fr.where(n)
        log = ROOT + (F(SC, 'log'), F('verif_entry::DrLog', 'e'))
        if st.store.get(log + SIZE) != Poly.const(self.told):
            self.bad.append(('a step is made before the outputs are told', where))
        t = loc + (F('verif_entry::AutoSolver', 't'),)
        if st.auto in ('before', 'reached') and not I.assume(st.copy(), ('cmp', '<', st.store[t] - self.end), st.auto == 'before'):
            return []           # the typestate and the facts exclude each other: not a path
        if st.auto == 'reached':
            self.bad.append(('a step is made after the end of the interval is reached', where))
        if st.auto == 'failed':
            self.bad.append(('a step is made after one that failed', where))
        st = st.copy()
        f = st.copy()
        f.auto = 'failed'
        I.exc.append((f, ('exc', ('sym', ('std', 'exception'))), n, fr))
        self.tloc = t
        new = st.store[t] = Poly.atom(('V', ('time', I.fresh(st, ('step', I.uid(n)))[1])))
        out = []
        for side in ('before', 'reached'):
            s = st.copy()
            s.auto = side
            if I.assume(s, ('cmp', '<', new - self.end), side == 'before'):
                out.append((s, None))
        return out

    def call(self, I, st, fr, node, fid, ol, args):
        if q_of(node) == 'verif_entry::autoStep':
            return self.step(I, st, fr, node, args[0][1])
        return super().call(I, st, fr, node, fid, ol, args)

    def vcall(self, I, st, fr, n, fid, ol, args):
        f = I.p.fns.get(fid)
        if f and f.cls and f.cls.startswith('ctm::FactoryMixin<') and f.name == 'staticTypeId':
            c = exact.targs(f.cls)[0]
            names = [k for k, cs in self.names.items() if c in cs]
            if len(names) != 1:
                raise AnalysisError('names of %s: %s' % (c, names))
            return [(st, ('str', names[0]))]
        return super().vcall(I, st, fr, n, fid, ol, args)


class DrRun(PRun):
    def __init__(self, p):
        super().__init__(p)
        self.I.c = self.c = DrClient(p)
        self.obj('s', SC)
        self.do('dr_make', 's')

    def val(self, st, fn, *args):
        """the value of a query that has one result"""
        rs = self.raw(st.copy(), fn, list(args))
        if len(rs) != 1:
            raise AnalysisError('%s: %d results' % (fn, len(rs)))
        return rs[0][1]

    def events(self, st):
        n = self.val(st, 'dr_events', 's').cval()
        if n is None:
            return [NEVER]
        n = int(n)
        return [int(self.val(st, 'dr_event', 's', i).cval()) for i in range(n)]

    def times(self, st):
        n = int(self.val(st, 'dr_times', 's').cval() or 0)
        return [self.val(st, 'dr_timeAt', 's', i) for i in range(n)]

    def state(self, st, fn):
        self.cls.pop('q', None)
        st = st.copy()
        self.I.drop(st, self.loc('q'))
        out = []
        for s in new_object(self.I, st, self.loc('q'), 'ctm::math::VectorTemplate<%s>' % VD):
            for s2, _ in self.raw(s, fn, ['s', 'q']):
                out += [v for _, v in self.vval(s2, 'q')]
        return out


def yes(v):
    return v is True or isinstance(v, Poly) and v.cval() not in (None, 0)


def sym(n):
    return Poly.atom(('V', n))


def scenario(r, outs=(), fail=NEVER, steps=4, ref=False, rhs=(1, 1), init=None, dur=True, solver=True):
    """(final states, exceptions) of load; the caller applies and solves"""
    t0, D, last = sym('t0'), sym('dur'), sym('last')
    for s in r.sts:
        r.I.assume(s, ('cmp', '<=', t0 + D - last), True)
    if solver == 'auto':
        r.do('dr_autoSolver', 's')
    elif solver:
        r.do('dr_solver', 's', fail, steps - 1, last)
    else:
        r.do('dr_noSolver', 's')
    if ref:
        r.do('dr_ref', 's')
    if rhs:
        r.do('dr_rhs', 's', *rhs)
    for o in outs:
        r.do('dr_out', 's', o)
    r.do('dr_time', 's', D)
    if init is not None:
        for s in r.sts:
            r.map_(s, 'im', init)
        r.do('dr_init', 's', 'im')
    r.do('dr_load', 's')
    if not r.sts or r.excs:
        raise AnalysisError('the configuration is not loaded')
    return t0, D


def apply_(r, x, t0):
    r.vec('x0', x)
    n = len(r.excs)
    r.do('dr_apply', 's', t0, 'x0')
    return r.excs[n:]


def where_of(p):
    c = [k for k in p.classes if k.startswith('ctm::math::OdeSolverConfiguration<') and k.endswith('>')]
    return (p.classes[c[0]].get('loc') if c else '') or 'OdeSolverConfiguration'


def done(ctx, r, rule, subj, bad):
    bad = list(bad) + ['%s (%s)' % x for x in r.c.bad] + ['an assertion fails (%s)' % x for x in r.c.asserts]
    ctx.count('histories', 1)
    ctx.ob(rule, subj, not bad, where_of(ctx.p), '; '.join(dict.fromkeys(bad))[:600])


def solve_case(ctx, outs, fail):
    r = DrRun(ctx.p)
    t0, D = scenario(r, outs, fail)
    bad = []
    if apply_(r, [sym('a'), sym('b'), sym('c')], t0):
        bad.append('apply throws')
    n0 = len(r.excs)
    start = list(r.sts)
    fin = [s for s0 in start for s, _ in r.raw(s0.copy(), 'dr_solve', ['s'])]
    exc = [e[1] for e in r.excs[n0:]]
    seen = set()
    for s, thrown in [(s, None) for s in fin] + [(e[0], e) for e in exc]:
        if not r.I.feasible(s) if hasattr(r.I, 'feasible') else False:
            continue
        ev = [e for e in r.events(s) if e < 30]
        tm = r.times(s)
        k = ev.count(1)
        seen.add((k, thrown is not None))
        want = [10 + o for o in outs] + [1] * k + [20 + o for o in outs]
        if ev != want:
            bad.append('%s%s happens instead of %s' % (say(ev), ' and an exception' if thrown else '', say(want)))
        if thrown is None and fail != NEVER and k > fail:
            bad.append('the failure of step %d is lost' % (fail + 1))
        if thrown is not None and (fail == NEVER or k != fail):
            bad.append('an exception is thrown after %d steps' % k)
        if thrown is not None and not str(thrown[1]).count('exception'):
            pass
        end = t0 + D
        for i, t in enumerate(tm):
            last = i == k - 1 and thrown is None
            if last:
                if not r.I.holds(s, ('cmp', '<=', end - t)):
                    bad.append('the integration stops before the end of the interval (%d steps)' % k)
            elif not r.I.holds(s, ('cmp', '<', t - end)):
                bad.append('a step is made after the end of the interval is reached (step %d)' % (i + 2))
        if not yes(r.val(s, 'dr_told', 's')):
            bad.append('an output is given another configuration or other components')
    want = {(k, False) for k in range(1, 5) if k <= fail} | ({(fail, True)} if fail != NEVER else set())
    if fail == NEVER:
        want = {(k, False) for k in range(1, 5)}
    if seen != want:
        bad.append('numbers of steps: %s instead of %s' % (sorted(seen), sorted(want)))
    ctx.count('paths', len(fin) + len(exc))
    done(ctx, r, 'steps and outputs', 'outputs %s, %s' % (outs, 'no failure' if fail == NEVER else 'step %d fails' % (fail + 1)), bad)


def endless_case(ctx, outs):
    """any number of steps: fixpoint over the loop"""
    r = DrRun(ctx.p)
    t0, D = scenario(r, outs, solver='auto')
    bad = []
    if apply_(r, [sym('a')] * 3, t0):
        bad.append('apply throws')
    r.c.end, r.c.told, r.c.peel = t0 + D, len(outs), False
    r.c.exact_loops, r.c.unroll = False, 4
    n0 = len(r.excs)
    for s in r.sts:
        s.auto = 'begun'
    fin = [s for s0 in list(r.sts) for s, _ in r.raw(s0.copy(), 'dr_solve', ['s'])]
    r.c.peel, r.c.exact_loops, r.c.unroll = True, True, 200
    exc = [e[1] for e in r.excs[n0:]]
    want = [10 + o for o in outs] + [20 + o for o in outs]
    for s, thrown in [(s, False) for s in fin] + [(e[0], True) for e in exc]:
        ev = r.events(s)
        if ev != want:
            bad.append('%s%s happens around the steps instead of %s' % (say(ev), ' and an exception' if thrown else '', say(want)))
        if s.auto != ('failed' if thrown else 'reached'):
            bad.append('an exception is thrown without a failure' if thrown else 'the failure is lost' if s.auto == 'failed' else 'the integration stops before the end of the interval')
    if not fin or not exc:
        bad.append('%d results, %d failures' % (len(fin), len(exc)))
    ctx.count('paths', len(fin) + len(exc))
    done(ctx, r, 'any number of steps', 'outputs %s' % (outs,), bad)


def say(ev):
    names = {1: 'step', 10: 'begin stats', 11: 'begin con', 12: 'begin file', 20: 'end stats', 21: 'end con', 22: 'end file', NEVER: 'an unknown number of events'}
    return ', '.join(names.get(e, str(e)) for e in ev) or 'nothing'


def apply_case(ctx, ref, init, size, rhs):
    """apply: what the solvers are given"""
    r = DrRun(ctx.p)
    n = rhs[0] + 2 * rhs[1] if rhs else None
    x = [sym('x%d' % i) for i in range(size)]
    im, ti = None, sym('t0')
    if init:
        im = {'size': ('int', Poly.const(size)), 'time': ('double', sym('ti'))}
        im.update({'x%d' % i: ('double', v) for i, v in enumerate(x)})
        ti = sym('ti')
    scenario(r, ref=ref, rhs=rhs, init=im)
    exc = apply_(r, x if not init else [sym('y%d' % i) for i in range(2)], sym('t0'))
    bad = []
    must = init and (rhs is None or size != n)
    if must:
        bad += ['a state of %d variables is accepted by a right-hand side of %s' % (size, n)] if r.sts else []
        bad += [] if exc or r.sts else ['neither applied nor refused']
    else:
        bad += ['apply throws (%s)' % (e[1][3].where(e[1][2]) if e[1][3] else '') for e in exc]
        bad += [] if r.sts else ['nothing is applied']
        for s in r.sts:
            ev = r.events(s)
            if ev != [30] + ([31] if ref else []):
                bad.append('the initial state is set %s' % ev)
            for now, state, has in (('dr_now', 'dr_state', 'dr_hasRhs'),) + ((('dr_refNow', 'dr_refState', 'dr_refHasRhs'),) if ref else ()):
                who = 'reference solver' if 'ef' in now else 'solver'
                t = r.val(s, now, 's')
                if t != ti:
                    bad.append('the %s starts at %s instead of %s' % (who, t, ti))
                for v in r.state(s, state):
                    if v != x:
                        bad.append('the %s starts from %s instead of %s' % (who, v, x))
                if not yes(r.val(s, has, 's')):
                    bad.append('the %s does not have the right-hand side when its initial state is set' % who)
            if not yes(r.val(s, 'dr_comp', 's')):
                bad.append('other components are returned')
    done(ctx, r, 'apply', '%s%s, %d variables for %s' % ('with a reference solver, ' if ref else '', 'initial state specified' if init else 'initial state passed', size, 'a right-hand side of %d' % n if rhs else 'no right-hand side'), bad)


def missing(ctx):
    r = DrRun(ctx.p)
    scenario(r, solver=False)
    exc = apply_(r, [ZERO], sym('t0'))
    done(ctx, r, 'missing', 'no solver', (['it is applied'] if r.sts else []) + ([] if exc or r.sts else ['neither applied nor refused']))
    for outs in ((), (0, 1, 2)):
        r = DrRun(ctx.p)
        scenario(r, outs, rhs=None)
        bad = []
        if apply_(r, [ZERO], sym('t0')):
            bad.append('apply throws without a specified state')
        n0 = len(r.excs)
        fin = [s for s0 in list(r.sts) for s, _ in r.raw(s0.copy(), 'dr_solve', ['s'])]
        if fin:
            bad.append('it is solved')
        for e in r.excs[n0:]:
            ev = [x for x in r.events(e[1][0]) if x < 30]
            if ev:
                bad.append('%s happens before the refusal' % say(ev))
        if not fin and len(r.excs) == n0 and not bad:
            bad.append('neither solved nor refused')
        done(ctx, r, 'missing', 'no right-hand side, outputs %s' % (outs,), bad)


def one(ctx, item):
    item[0](ctx, *item[1:])


def driver(ctx):
    """Element-wise forward abstract interpretation of OdeSolverConfiguration::apply, initOdeOutput, solveOde and finalizeOdeOutput over an uninterpreted solver."""
    items = []
    for n in range(4):
        for outs in itertools.combinations(range(3), n):
            for fail in (NEVER, 0, 2):
                items.append((solve_case, outs, fail))
            items.append((endless_case, outs))
    for ref in (False, True):
        for rhs in ((1, 1), (2, 0), (0, 1), None):
            for size in range(4):
                items.append((apply_case, ref, True, size, rhs))
            items.append((apply_case, ref, False, 2, rhs))
    items.append((missing,))
    ctx.pmap(one, items)
    ctx.floor('paths', ctx.counts.get('paths', 0) if hasattr(ctx, 'counts') else len(items), 40)
