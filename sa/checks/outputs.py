"""Outputs: what is written is what the integration did."""
import math
import exact
from absint import BASE, DYN, SIZE, hashable, kind, strip, _is_enum
from checks.driver import DrClient, yes, sym
from checks.params import PRun
from harness import q_of
from program import AnalysisError
from terms import Poly, ZERO, ONE

SC = 'verif_entry::OuScene'
OUT = (('OUT',),)
COUT = (('STD', 'cout'),)


class OuClient(DrClient):
    opens = True            # the output file can be opened
    INERT = ('OpaqueTickCounter::',)        # the counts of the timing statistics are followed

    def cxx(self, I, st, fr, node, q, ol, args):
        return None         # observer lists are analysed through their own source

    def call(self, I, st, fr, node, fid, ol, args):
        q, n = q_of(node), node.get('n')
        if q == 'verif_entry::anyDescription':
            return [(st, ('sym', ('descr', num(I, st, fr, node, args, 0))))]
        if q in ('std::operator<<', 'std::basic_ostream::operator<<') or (q.endswith('operator<<') and q.startswith('std::')):
            l, vs = (ol, list(args)) if ol and len(args) == 1 else (args[0][1], list(args[1:]))
            return self.emit(I, st, fr, node, l, vs[0])
        if q in ('std::endl', 'std::flush'):
            return self.emit(I, st, fr, node, args[0][1], ('fnp', q))
        if q.startswith('ctm::sys::TimerCalibrator::'):
            return [(st, False if n == 'toMsecAvailable' else ('sym', ('interval', 0)))]
        if q == 'std::setprecision':
            return [(st, ('sym', ('setprecision',)))]
        if n == 'fail' and ol and q.startswith('std::'):
            return [(st, not self.opens)]
        if q in ('log10', 'std::log10'):
            x = num(I, st, fr, node, args, 0).cval()
            if x is None:
                raise AnalysisError('logarithm of an unknown number at %s' % fr.where(node))
            return [(st, Poly.const(int(math.floor(math.log10(x))) if x >= 1 else 0))]
        if q in ('std::unique_ptr::reset', 'std::unique_ptr::operator='):
            old = st.store.get(ol)
            states = [st]
            if isinstance(old, tuple) and old[:1] == ('ref',):
                a = args[0] if args else None
                a = st.store.get(a[1], a) if isinstance(a, tuple) and a[:1] == ('ref',) and isinstance(st.store.get(a[1]), tuple) else a
                if not (isinstance(a, tuple) and a == old):
                    states = destroy(I, st.copy(), fr, node, old[1])
            out = []
            for s in states:
                I2 = super().call(I, s, fr, node, fid, ol, args)
                import models
                r = I2 if I2 is not None else (models.sp_reset if n == 'reset' else models.sp_assign)(I, s, fr, node, q, ol, args)
                out += r
            return out
        return super().call(I, st, fr, node, fid, ol, args)

    def emit(self, I, st, fr, node, l, v):
        if isinstance(v, tuple) and v[:1] == ('ref',):
            w = st.store.get(v[1])
            v = w if w is not None else I.read(st, v[1], arg_t(node), fr, node)
        if isinstance(v, tuple) and v[:1] == ('agg',):
            v = st.store.get(v[1], v)
        st = st.copy()
        if isinstance(v, tuple) and v[:1] == ('sym',) and isinstance(v[1], tuple) and v[1][:1] == ('setprecision',):
            return [(st, ('ref', l))]
        if isinstance(v, tuple) and v[:1] == ('fnp',):
            v = ('str', '\n')
        if isinstance(v, Poly) and strip(arg_t(node)) == 'char' and v.cval() is not None:
            v = ('str', chr(int(v.cval())))
        st.store[OUT] = ('out', st.store.get(OUT, ('out', ()))[1] + ((hashable(l), hashable(v)),))
        return [(st, ('ref', l))]


def arg_t(node):
    a = node.get('a') or []
    return (a[-1] or {}).get('t') or 'double' if a else 'double'


def num(I, st, fr, node, args, i):
    v = args[i]
    if isinstance(v, tuple) and v[:1] == ('ref',):
        v = I.read(st, v[1], 'double', fr, node)
    return v


def destroy(I, st, fr, node, loc):
    """the destructors of an object and of its parts"""
    cls = st.store.get(loc + DYN)
    if not isinstance(cls, str) or cls not in I.p.classes:
        return [st]
    return destroy_cls(I, [st], fr, node, loc, cls)


def destroy_cls(I, states, fr, node, loc, cls):
    c = I.p.classes.get(strip(cls))
    if not c:
        return states
    d = I.dtor_of(cls)
    if d:
        states = [s2 for s in states for s2, _ in I.invoke(s, fr, node, d, loc, [])]
    for f in reversed(c.get('fields') or []):
        t = f['type']
        if t.rstrip().endswith(('&', '*')) or kind(t) != 'agg' or exact.cont_of(t):
            continue
        states = destroy_cls(I, states, fr, node, loc + (('f', strip(cls), f['name']),), t)
    for b in reversed(c.get('bases') or []):
        states = destroy_cls(I, states, fr, node, loc, b['name'])
    return states


class OuRun(PRun):
    def __init__(self, p, n1, n2, timing, what, opens=True, **par):
        super().__init__(p)
        self.I.c = self.c = OuClient(p)
        self.c.opens = opens
        self.obj('s', SC)
        self.n = n1 + 2 * n2
        self.t0 = sym('t0')
        self.at, self.when = 0, {0: 0}
        self.vec('x', self.x('x0'))
        self.do('ou_make', 's', n1, n2, Poly.const(timing), sym('dur'), self.t0, 'x')
        self.do('ou_' + what, 's')
        for k, v in par.items():
            if v is not None:
                self.do('ou_' + k, 's', *([] if v is True else [v]))
        if not self.sts or self.excs:
            raise AnalysisError('the output is not made')

    def x(self, nm):
        return [sym('%s[%d]' % (nm, i)) for i in range(self.n)]

    def step(self, k, acc=True, changed=False, trunc=False, izf=2 ** 32 - 1, tt=0):
        """step number k: to time t<k> and state x<k>; a rejected one leaves both"""
        if acc:
            self.at = k
        self.when[k] = self.at
        self.vec('x', self.x('x%d' % self.at))
        self.do('ou_step', 's', self.time(k), 'x', sym('h%d' % k), acc, changed, trunc, sym('e%d' % k), izf, tt)

    def time(self, k):
        return sym('t%d' % self.when[k])

    def text(self, st):
        """[(stream, lines)]: a line is a list of cells, a cell a list of constants and values"""
        by = {}
        for l, v in st.store.get(OUT, ('out', ()))[1]:
            by.setdefault(l, []).append(v)
        return {l: lines(vs) for l, vs in by.items()}


def lines(vs):
    out = [[[]]]
    for v in vs:
        if isinstance(v, tuple) and v and v[0] == 'str':
            for i, part in enumerate(v[1].split('\n')):
                if i:
                    out.append([[]])
                for j, c in enumerate(part.split('\t')):
                    if j:
                        out[-1].append([])
                    cell = out[-1][-1]
                    if c:
                        if cell and isinstance(cell[-1], str):
                            cell[-1] += c
                        else:
                            cell.append(c)
        else:
            out[-1][-1].append(v)
    return out


NONE = 2 ** 32 - 1
KINDS = {'solution': 'OdeSolverStepSolutionConsoleOutput', 'columns': 'OdeSolverStepSolutionColumnwiseOutput',
         'general': 'OdeSolverStepGeneralConsoleOutput', 'stats': 'OdeSolverStatisticsOutput'}


def where_of(p, what):
    c = [k for k in p.classes if k.startswith('ctm::math::%s<' % KINDS[what]) and k.endswith('>>')]
    return (p.classes[c[0]].get('loc') if c else '') or KINDS[what]


def done(ctx, r, rule, what, subj, bad):
    bad = list(bad) + ['%s (%s)' % x for x in r.c.bad] + ['an assertion fails (%s)' % x for x in r.c.asserts]
    ctx.count('histories', 1)
    ctx.count('paths', len(r.sts))
    ctx.ob(rule, '%s, %s' % (KINDS[what], subj), not bad, where_of(ctx.p, what), '; '.join(dict.fromkeys(bad))[:600])


def cell_text(v):
    if isinstance(v, str):
        return v
    if isinstance(v, Poly):
        return '{%s}' % v if v.cval() is None else str(v.cval())
    if isinstance(v, tuple) and v[:1] == ('str',):
        return v[1]
    if isinstance(v, tuple) and v[:1] == ('sym',):
        return '<%s>' % (v[1][1] if len(v[1]) == 2 else str(v[1]))
    if isinstance(v, (int, float)):
        return str(v)
    return str(v)


def report(r, st, file=False):
    """the lines written; complaints about the stream"""
    t = r.text(st)
    if not t:
        return [], []
    bad = []
    cout = [l for l in t if l == (('G', 'std::cout'),)]
    if len(t) > 1:
        bad.append('%d streams are written to' % len(t))
    if bool(cout) == file:
        bad.append('the report of an output %s a file name goes to %s' % ('with' if file else 'without', 'the console' if cout else 'another stream'))
    ls = list(t.values())[0]
    if ls[-1] != [[]]:
        bad.append('the last line is not ended')
    else:
        ls = ls[:-1]
    return [['' .join(map(cell_text, c)) for c in l] for l in ls], bad


def tx(v):
    return cell_text(v if isinstance(v, (Poly, str)) else Poly.const(v))


def names(n1, n2):
    return ['x%d' % i for i in range(n2 or n1)] + (['v%d' % i for i in range(n2)] + ['z%d' % i for i in range(n1)] if n2 else [])


def chosen(n1, n2, half):
    out = []
    for b, e in ([(0, n2), (n2, 2 * n2), (2 * n2, 2 * n2 + n1)] if n2 else [(0, n1)]):
        if e - b > 2 * half:
            out += list(range(b, b + half)) + list(range(e - half, e))
        else:
            out += list(range(b, e))
    return out


HISTORY = [(True, False, False, NONE, 0), (False, True, False, NONE, 0), (True, True, False, NONE, 0), (True, False, True, 1, 1), (False, False, True, 0, -1), (True, True, True, NONE, 0), (True, False, True, 0, 0)]


def play(r, hist=HISTORY):
    for k, (acc, ch, tr, izf, tt) in enumerate(hist, 1):
        r.step(k, acc, ch, tr, izf, tt)


def compare(got, want, bad):
    for i in range(max(len(got), len(want))):
        g = '\t'.join(got[i]) if i < len(got) else None
        w = '\t'.join(want[i]) if i < len(want) else None
        if g != w:
            bad.append('line %d is %r instead of %r' % (i + 1, g, w))
            return


def ends(r, bad, file):
    """nothing is observed or written after the end"""
    before = [report(r, s, file) for s in r.sts]
    for s in r.sts:
        if not yes(r.raw(s.copy(), 'ou_silent', ['s'])[0][1]):
            bad.append('it observes the solver after the end')
    r.step(90)
    for s, b in zip(r.sts, before):
        if report(r, s, file) != b:
            bad.append('it writes after the end')


def begin(r, bad):
    r.do('ou_begin', 's')
    if not r.sts or r.excs:
        bad.append('it is not begun')


def expected(r, what, n1, n2, par, hist, ks, again=False):
    """the lines when the steps ks are written"""
    if what == 'solution':
        ix = chosen(n1, n2, par.get('half') if par.get('half') is not None else 5)
        nm = names(n1, n2)
        head = [['time'] + [nm[i] for i in ix], [tx(r.t0)] + [tx(r.x('x0')[i]) for i in ix]]
        return head * (2 if again else 1) + [[tx(sym('t%d' % k))] + [tx(r.x('x%d' % k)[i]) for i in ix] for k in ks]
    if what == 'columns':
        m = par.get('max') if par.get('max') is not None else 10
        ks = ([0] + ks)[:m]
        want = [['index', 'name'] + ['n%d' % i for i in range(len(ks))], ['-1', 'time'] + [tx(sym('t%d' % k)) for k in ks]]
        d = len(str(r.n))
        return want + [[str(i), 'UNNAMED_' + str(i).rjust(d, '0')] + [tx(r.x('x%d' % k)[i]) for k in ks] for i in range(r.n)]
    want = []
    for k in ks:
        acc, ch, tr, izf, tt = hist[k - 1]
        l = 'step %d, time = %s, h = %s, err = %s, %s' % ((k,) + (tx(r.time(k)), tx(sym('h%d' % k)), tx(sym('e%d' % k))) + ('accepted' if acc else 'rejected',))
        l += ', step size changed' if ch else ''
        l += ', step truncated' if tr else ''
        l += ' due to <%d> %s' % (izf, '+' if tt > 0 else '-' if tt < 0 else '?') if tr and izf != NONE else ''
        want.append([l])
    return want


def lines_case(ctx, what, n1, n2, par, again=False):
    """every step is due"""
    file = bool(par.get('file'))
    r = OuRun(ctx.p, n1, n2, 0, what, **par)
    bad = []
    begin(r, bad)
    if again:
        begin(r, bad)
    play(r)
    ks = [k for k, h in enumerate(HISTORY, 1) if h[0] or what == 'general']
    want = expected(r, what, n1, n2, par, HISTORY, ks, again)
    r.do('ou_end', 's')
    for s in r.sts:
        got, b = report(r, s, file)
        bad += b
        compare(got, want, bad)
    ends(r, bad, file)
    done(ctx, r, 'what is written', what, '%d + 2*%d variables%s%s' % (n1, n2, ''.join(', %s %s' % x for x in par.items()), ', begun twice' if again else ''), bad)


def times_written(what, lines, n):
    """the times (general: the step sizes) of the lines written, in their order"""
    if what == 'solution':
        return [l[0] for l in lines[1:]]
    if what == 'columns':
        return lines[1][2:] if len(lines) > 1 else []
    return [l[0].split('h = ')[1].split(',')[0] for l in lines if 'h = ' in l[0]]


def timing_case(ctx, what, timing, hist):
    """which steps are due"""
    timing0, timing = timing, Poly.const(timing)
    r = OuRun(ctx.p, 1, 1, timing0, what)
    bad = []
    prev = r.t0
    for k, (acc, tr) in enumerate(hist, 1):
        if acc:
            for s in r.sts:
                r.I.assume(s, ('cmp', '<=', prev - sym('t%d' % k)), True)
            prev = sym('t%d' % k)
    begin(r, bad)
    for k, (acc, tr) in enumerate(hist, 1):
        r.step(k, acc, False, tr)
    r.do('ou_end', 's')
    for s in r.sts:
        got, b = report(r, s)
        bad += b
        ts = times_written(what, got, r.n)
        last, ks = None, []
        if what != 'general':
            if not ts or ts[0] != tx(r.t0):
                bad.append('the initial state is not written')
                continue
            last, ts = r.t0, ts[1:]
        for k, (acc, tr) in enumerate(hist, 1):
            t = r.time(k)
            written = bool(ts) and ts[0] == tx(sym('h%d' % k) if what == 'general' else t)
            if written:
                ts = ts[1:]
            if what != 'general' and not acc:
                if written:
                    bad.append('a rejected step is written')
                continue
            if what == 'general' and (tr or last is None):
                if not written:
                    bad.append('the %s is not written' % ('truncated step' if tr else 'first step'))
            elif written and not r.I.holds(s, ('cmp', '<=', timing - (t - last))):
                bad.append('step %d is written earlier than the output timing after the one written before' % k)
            elif not written and not r.I.holds(s, ('cmp', '<', t - last - timing)):
                bad.append('step %d is not written though the output timing has passed' % k)
            if written:
                last = t
                ks.append(k)
        if ts:
            bad.append('%s is written too' % ts[0])
        else:
            compare(got, expected(r, what, 1, 1, {}, [(a, False, t, NONE, 0) for a, t in hist], ks), bad)
    done(ctx, r, 'output timing', what, 'timing %s, %s' % (timing, ', '.join(('accepted' if a else 'rejected') + (' truncated' if t else '') for a, t in hist)), bad)


def stats_case(ctx, hist, evals, par, again=False):
    file = bool(par.get('file'))
    r = OuRun(ctx.p, 1, 1, 0, 'stats', **par)
    bad = []
    if again:
        begin(r, bad)
        play(r)
    begin(r, bad)
    play(r, hist)
    inside = jac = total = refreshes = 0
    for e in evals:
        if e == 'f':
            r.do('ou_eval', 's', sym('tt'), 'x')
            total += 1
            jac += inside
        else:
            inside = int(e == '(')
            r.do('ou_refresh', 's', bool(inside))
            refreshes += e == ')'
    r.do('ou_end', 's')
    n = len(hist)
    rej = sum(not h[0] for h in hist)
    pc = lambda k: '%s (%s%%)' % (k, tx(pct(k, n)))
    hs = ZERO
    for k, h in enumerate(hist, 1):
        if h[0]:
            hs = hs + sym('h%d' % k)
    want = {'Number of ODE RHS evaluations to refresh Jacobian': tx(jac),
            'Total number of ODE RHS evaluations': '%d = %d + %d' % (total, total - jac, jac),
            'Total steps': tx(n), 'Rejected steps': pc(rej), 'Step changes': pc(sum(h[1] for h in hist)), 'Truncated steps': pc(sum(h[2] for h in hist))}
    if n > rej:
        want['Average step size'] = tx(scale(hs, n - rej))
    for s in r.sts:
        got, b = report(r, s, file)
        bad += b
        d = {}
        for l in got:
            k, _, v = l[0].partition(': ')
            if k == 'TIMING':
                k2, _, v = v.partition(': ')
                k += ': ' + k2
            if k in d:
                bad.append('%s is written twice' % k)
            d[k] = v
        for k, v in want.items():
            if d.get(k) != v:
                bad.append('%s: %s instead of %s' % (k, d.get(k), v))
        for k, m in (('TIMING: Jacobian', refreshes), ('TIMING: ODE RHS', total)):
            v = d.get(k)
            if (v.rpartition('count = ')[2] if v else '0') != str(m):
                bad.append('%s: %s instead of a count of %d' % (k, v, m))
    ends(r, bad, file)
    done(ctx, r, 'statistics', 'stats', '%d steps, %s%s%s' % (n, evals or 'no evaluations', ', file' if file else '', ', begun twice' if again else ''), bad)


def pct(k, n):
    from fractions import Fraction
    return Poly.const(Fraction(100 * k, n))


def scale(p, n):
    from fractions import Fraction
    return p * Poly.const(Fraction(1, n))


def iteration_case(ctx, file):
    r = OuRun(ctx.p, 1, 1, 1, 'general', **({'file': True} if file else {}))
    bad = []
    begin(r, bad)
    for k in range(3):
        out = []
        for s in r.sts:
            for s2, v in r.raw(s, 'ou_iter', ['s', k, sym('al%d' % k)]):
                if yes(v):
                    bad.append('it ends the iterations')
                out.append(s2)
        r.sts = out
    want = [['  Newton it. %d, alpha=%s, <77>' % (k + 1, tx(sym('al%d' % k)))] for k in range(3)]
    r.do('ou_end', 's')
    for s in r.sts:
        got, b = report(r, s, file)
        bad += b
        compare(got, want, bad)
    ends(r, bad, file)
    done(ctx, r, 'Newton iterations', 'general', 'file' if file else 'console', bad)


def closed_case(ctx, what):
    r = OuRun(ctx.p, 1, 1, 0, what, opens=False, file=True)
    bad = []
    s0 = [s.copy() for s in r.sts]
    r.do('ou_begin', 's')
    if r.sts:
        bad.append('a file that cannot be opened is accepted')
    for fn, e in r.excs:
        if r.text(e[0]):
            bad.append('something is written before the refusal')
        for s, v in r.raw(e[0].copy(), 'ou_silent', ['s']):
            if not yes(v):
                bad.append('it observes the solver after the refusal')
    if not r.sts and not r.excs:
        bad.append('neither begun nor refused')
    done(ctx, r, 'file', what, 'a file that cannot be opened', bad)


def one(ctx, item):
    item[0](ctx, *item[1:])


def outputs(ctx):
    """Element-wise forward abstract interpretation of the outputs over a solver whose steps are symbols; what is put into the streams is recorded."""
    items = []
    for n1, n2 in ((1, 0), (3, 0), (1, 1), (0, 1), (0, 2), (2, 1), (3, 2)):
        for half in (None, 0, 1, 2):
            items.append((lines_case, 'solution', n1, n2, {} if half is None else {'half': half}))
        items.append((lines_case, 'columns', n1, n2, {}))
    for m in (0, 1, 2, 3, 5, 6):
        items.append((lines_case, 'columns', 1, 1, {'max': m}))
    items += [(lines_case, 'columns', 10, 0, {'max': 2}), (lines_case, 'columns', 101, 0, {'max': 1}), (lines_case, 'solution', 12, 0, {}), (lines_case, 'solution', 11, 11, {})]
    for w in ('solution', 'columns', 'general'):
        items.append((lines_case, w, 1, 1, {'file': True}))
    items += [(lines_case, 'general', 1, 1, {}), (lines_case, 'solution', 1, 1, {}, True), (lines_case, 'general', 1, 1, {}, True), (lines_case, 'columns', 1, 1, {'max': 3}, True)]
    A, R, T = (True, False), (False, False), (True, True)
    for w in ('solution', 'columns', 'general'):
        for tm in (1, 2):
            for h in ((A, A, A), (A, R, A), (R, A, A), (A, T, A), (T, R, A), (A, A, R, A, A), (A, T, A, A, A)):
                items.append((timing_case, w, tm, h))
    for hist in (HISTORY, HISTORY[:1], HISTORY[:3], HISTORY[3:]):
        for ev in ('', 'f', 'ff(fff)f', '(ff)(f)', 'f(f)ff(ff)f'):
            items.append((stats_case, hist, ev, {}))
    items += [(stats_case, HISTORY, 'f(f)', {'file': True}), (stats_case, HISTORY[:3], 'f(f)', {}, True)]
    items += [(iteration_case, False), (iteration_case, True)]
    items += [(closed_case, w) for w in KINDS]
    ctx.pmap(one, items)
    ctx.floor('histories', ctx.counts.get('histories', 0), 80)
