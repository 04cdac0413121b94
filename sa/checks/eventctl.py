from scen import *
from polyh import Cons, cancel, unfraction
from terms import tstr
import itertools

PM, MP, BOTH, REC = 1, 2, 3, 4
NAMES = {1: 'plus to minus', 2: 'minus to plus', 3: 'both directions'}


def flagname(f):
    return NAMES[f & 3] + (', recomputed' if f & REC else '')


def Z(t, x, i):
    return at(Poly.atom(('V', ('Z', t, x))), Poly.const(i))


class EvClient(SolverClient):
    max_states = 10 ** 6

    def __init__(self, flags):
        SolverClient.__init__(self)
        self.flags = flags

    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        nz = len(self.flags)
        if q == N + 'OdeRhs::zeroFuncCount':
            return [(st, Poly.const(nz))]
        if q == N + 'OdeRhs::zeroFuncFlags':
            loc = I.temp(fr, n)
            I.drop(st, loc)
            st.store[loc + BASE] = ('fresh',)
            st.store[loc + (SIZE,)] = Poly.const(nz)
            for i, f in enumerate(self.flags):
                st.store[loc + (('i', Poly.const(i)),)] = Poly.const(f)
            return [(st, ('agg', loc))]
        if q == N + 'OdeRhs::zeroFunctions':
            x = I.read_vec(st, args[2][1], '', fr, n)
            t = self.num(I, st, args[1], fr, n)
            I.write(st, args[0][1], ('vec', Poly.atom(('V', ('Z', cancel(t), x[1].map_atoms(lambda a: None)))), Poly.const(nz)), fr, n)
            st.auto = st.auto + (('sample', cancel(t), x[1]),)
            return [(st, None)]
        if q == N + 'OdeRhs::switchPhaseState':
            p = args[0]
            tr = tuple(I.read(st, p[1][:-1] + (('i', p[1][-1][1] + Poly.const(i)),), 'int', fr, n) for i in range(nz)) \
                if isinstance(p, tuple) and p[0] == 'ref' and p[1] and p[1][-1][0] == 'i' else None
            t = self.num(I, st, args[1], fr, n)
            x = I.read_vec(st, args[2][1], '', fr, n)
            st.auto = st.auto + (('switch', tr, t, x[1]),)
            I.write(st, args[2][1], ('vec', Poly.atom(('V', ('S', x[1]))), x[2]), fr, n)
            return [(st, None)]
        if q == N + 'OdeRhs::truncateStep':
            t = I.read(st, args[0][1], 'double', fr, n)
            x = I.read_vec(st, args[1][1], '', fr, n)
            out = []
            for b in (False, True):
                s = st.copy()
                s.auto = s.auto + (('truncate', t, x[1], b),)
                if b:
                    I.write(s, args[0][1], Poly.atom(('trunct', t)), fr, n)
                    I.write(s, args[1][1], ('vec', Poly.atom(('V', ('truncx', x[1]))), x[2]), fr, n)
                out.append((s, b))
            return out
        return SolverClient.vcall(self, I, st, fr, n, fid, ol, args)

    def num(self, I, st, v, fr, n):
        return I.read(st, v[1], 'double', fr, n) if isinstance(v, tuple) and v and v[0] == 'ref' else v

    def on_div(self, I, st, a, b, e):
        if st.auto is not None:
            st.auto = st.auto + (('div', a, b),)

    def on_assert(self, I, st, fr, node):
        self.failed.append((st, fr.where(node)))


def sgn(p):
    c = p.cval()
    return None if c is None else (c > 0) - (c < 0)


class Path:
    """one history of the controller: its state and what the reference remembers of every zero function"""

    def __init__(self, st, mem, val, cons, what, fin=True):
        self.st = st; self.mem = mem; self.val = val; self.cons = cons; self.what = what


def signs_of(p, given):
    s = sgn(p)
    if s is not None:
        return [s]
    return [given[p]] if p in given else [-1, 0, 1]


def possible(I, s, q, v):
    s = s.copy()
    return I.assume(s, ('cmp', '==' if v == 0 else '<', q if v <= 0 else -q), True)


OPS = {-1: '<', 0: '==', 1: '>'}


def event_control(ctx):
    """Histories restart / step / step / step of every registered event control over one or two zero functions with every
    kind of flags, values left symbolic. Every path of atStepEnd (abstract interpretation over linear forms) is confronted,
    for each combination of signs its conditions do not exclude (convex polyhedra), with what the interface promises:
    whether there is an event, which function has the earliest interpolated root, the truncated time and state, the
    transitions handed to the right-hand side, and what is reported to the caller; later steps are judged against the
    values and signs the reference remembers."""
    p = ctx.p
    classes = [c for c in p.subclasses(N + 'OdeEventController<' + VD + '>') if any(b['name'].startswith('ctm::FactoryMixin<') for b in p.classes[c]['bases'])]
    ctx.floor('event controls', len(classes), 1)
    for cls in classes:
        delegate(ctx, p, cls)
        hs = [([d | r], 3) for d, r in itertools.product((PM, MP, BOTH), (0, REC))]
        hs += [(list(fl), 2) for fl in ((BOTH, BOTH), (PM, BOTH | REC), (MP, PM), (BOTH | REC, MP), (PM | REC, MP | REC))]
        ctx.pmap(lambda c, x: history(c, p, cls, *x), sorted(hs, key=lambda x: -len(x[0])))
    ctx.assume('exact arithmetic; finite values; the right-hand side and the caller keep to their interfaces')


def delegate(ctx, p, cls):
    cl = EvClient([])
    cl.failed = []
    I, sts, this = setup(p, cls, cl)
    name = short(cls)
    f = method(p, cls, 'atStepEnd', 6)
    for k in range(2):
        nxt = []
        for st in start(I, sts, this, cls, Poly.atom('t0'), 'x0'):
            for s, ret in end(I, st, this, cls, f, 'x0', 'xe', Poly.atom('te')):
                tr = [e for e in s.auto if e[0] == 'truncate']
                b = tr[0][3] if tr else None
                t = s.store.get(T2); x = I.read_vec(s, X2, '', None, None)
                te, xe = Poly.atom('te'), Poly.atom(('V', 'xe'))
                ctx.ob('without zero functions the right-hand side decides', '%s, step %d' % (name, k + 1),
                       len(tr) == 1 and tr[0][1] == te and tr[0][2] == xe and ret is b and
                       t == (Poly.atom(('trunct', te)) if b else te) and x[1] == (Poly.atom(('V', ('truncx', xe))) if b else xe),
                       f.rloc(), 'returned %s, events %s' % (ret, [e[0] for e in s.auto]))
                s.auto = ()
                nxt.append(s)
        sts = nxt


T2, X2, IZ, TT = (('R', 't2'),), (('R', 'x2'),), (('R', 'iz'),), (('R', 'tt'),)


def setup(p, cls, cl):
    this = (('R', 'this'),)
    I = Interp(p, cl)
    s = State()
    s.auto = ()
    sts = new_object(I, s, this, cls)
    sts = share(I, sts, this, cls, 'setOdeRhs', ('sym', 'rhs'))
    sts = each(I, sts, this, cls, 'reset', ())
    return I, sts, this


def start(I, sts, this, cls, t, x):
    loc = (('R', 'x1'),)
    for s in sts:
        if isinstance(x, str):
            put_vec(s, loc, x, NV)
        else:
            s.store[loc] = ('vec', x, NV)
    return each(I, sts, this, cls, 'atStepStart', [('ref', loc), t])


def end(I, st, this, cls, f, x1, xe, te):
    put_vec(st, X2, xe, NV)
    st.store[T2] = te
    st.store[IZ] = Poly.const(77)
    st.store[TT] = Poly.const(77)
    loc = (('R', 'x1'),)
    args = [('ref', loc), ('ref', X2), ('ref', T2), ('sym', 'interpolate'), ('ref', IZ), ('ref', TT)]
    return I.run(f, this, args, st)


def history(ctx, p, cls, flags, steps):
    cl = EvClient(flags)
    cl.failed = []
    name = short(cls)
    I, sts, this = setup(p, cls, cl)
    f = method(p, cls, 'atStepEnd', 6)
    nz = len(flags)
    fl = ' / '.join(flagname(x) for x in flags)
    paths = []
    t, x = Poly.atom('t0'), Poly.atom(('V', 'x0'))
    for s in start(I, sts, this, cls, t, x):
        v = [Z(t, x, i) for i in range(nz)]
        paths.append(Path(s, v, list(v), {}, ['start'] * nz))
        paths[-1].t, paths[-1].x = t, x
    uniq = [0]
    for k in range(steps):
        nxt = []
        for pa in paths:
            subj0 = '%s, %s, step %d' % (name, fl, k + 1)
            h = Poly.atom('h%d' % k)
            te, xe = pa.t + h, 'xe%d' % k
            sts = [pa.st]
            if k:
                sts = start(I, sts, this, cls, pa.t, pa.x)
            for s0 in sts:
                s0.auto = ()
                I.assume(s0, ('cmp', '<', -h), True)
                cl.failed = []
                outs = list(end(I, s0, this, cls, f, pa.x, xe, te))
                for s, ret in outs:
                    judge(ctx, I, cl, pa, s, ret, subj0, flags, h, te, Poly.atom(('V', xe)), f, nxt, this, uniq, k)
                for s, w in cl.failed:
                    judge(ctx, I, cl, pa, s, 'assert', subj0, flags, h, te, Poly.atom(('V', xe)), f, None, this, uniq, k, w)
        # one representative per distinct memory
        seen = {}
        for pa in nxt:
            key = (tuple(pa.what), tuple(sorted((str(a), b) for a, b in pa.cons.items())), tuple(str(v) for v in pa.val), tuple(str(v) for v in pa.mem), shape(pa.st, this))
            seen.setdefault(key, pa)
        paths = list(seen.values())
        ctx.count('histories judged', len(paths))


def shape(st, this):
    return frozenset((k, hashable(v)) for k, v in st.store.items() if k[:len(this)] == this)


def judge(ctx, I, cl, pa, s, ret, subj0, flags, h, te, xe, f, nxt, this, uniq, k, where=None):
    nz = len(flags)
    b = [Z(te, xe, i) for i in range(nz)]
    forms = []
    for q in pa.mem + pa.val + b:
        if q not in forms:
            forms.append(q)
    rets = I.branch(s, ret) if isinstance(ret, tuple) else [(s, ret)]
    for s, ret in rets:
        for sg in itertools.product(*[[v for v in signs_of(q, pa.cons) if sgn(q) is not None or possible(I, s, q, v)] for q in forms]):
            sign = dict(zip(forms, sg))
            # values and remembered signs agree, except that the function that switched is at zero
            if any(sign[pa.mem[i]] * sign[pa.val[i]] < 0 for i in range(nz)):
                continue

            def den(q):
                for i in range(nz):
                    if q == pa.val[i] - b[i]:
                        d = 1
                    elif q == b[i] - pa.val[i]:
                        d = -1
                    else:
                        continue
                    u, w = sign[pa.val[i]], sign[b[i]]
                    if u == w:
                        return 0 if u == 0 else None
                    return d * (1 if u > w else -1)
                return None
            c = Cons((), lambda q, op: unfraction(q, op, den))
            c.add(h, '>')
            for q, v in sign.items():
                if sgn(q) is None:
                    c.add(q, OPS[v])
            for q, v in pa.cons.items():
                c.add(q, OPS[v])
            c.facts(s.facts)
            if c.empty():
                continue
            region(ctx, I, pa, s, ret, sign, c, subj0, flags, h, te, xe, b, f, nxt, this, uniq, k, where)


def region(ctx, I, pa, s, ret, sign, c, subj0, flags, h, te, xe, b, f, nxt, this, uniq, k, where):
    nz = len(flags)
    must, may, far = [], [], []
    for i in range(nz):
        m, e, v = sign[pa.mem[i]], sign[b[i]], sign[pa.val[i]]
        d = flags[i] & 3
        if d == BOTH:
            if e != m:
                must.append(i)
        else:
            o = 1 if d == PM else -1
            m, e = m * o, e * o
            if m < 0 and e < 0:
                far.append(i)
            if m > 0 and e < 0:
                must.append(i)
            elif m > 0 and e == 0 or m == 0 and e < 0:
                may.append(i)
    S = {-1: '-', 0: '0', 1: '+'}
    subj = '%s: %s' % (subj0, '; '.join('%s %s to %s' % (pa.what[i], S[sign[pa.mem[i]]], S[sign[b[i]]]) for i in range(nz)))
    w = f.rloc()
    if far:
        iz = s.store.get(IZ)
        for i in far:
            ctx.ob('a function watched in one direction only is left alone while it stays on the far side', '%s: %s' % (subj0.split(',')[0], NAMES[flags[i] & 3]),
                   ret != 'assert' and not (ret is True and iz == Poly.const(i)), where or w, 'assertion fails' if ret == 'assert' else 'event reported')
        return
    if ret == 'assert':
        ctx.ob('no assertion fails', subj, False, where, 'assertion fails')
        return
    sw = [e for e in s.auto if e[0] == 'switch']
    iz, tt = s.store.get(IZ), s.store.get(TT)
    t2 = s.store.get(T2)
    x2 = I.read_vec(s, X2, '', None, None)[1]
    for e in s.auto:
        if e[0] == 'div' and c.implies(e[2], '=='):
            ctx.ob('event times are defined', subj, False, w, 'divides %s by %s, which is zero' % (tstr(e[1])[:80], tstr(e[2])[:80]))
            return
    if ret is False:
        ok = ctx.ob('an event is reported if and only if a function changed its sign in a watched direction', subj, not must, w, 'no event reported')
        ctx.ob('a step without an event is left alone', subj, not sw and t2 == te and x2 == xe, w, 'switches %d, time %s, state %s' % (len(sw), tstr(t2)[:80], tstr(x2)[:80]))
        if nxt is not None and ok:
            n = Path(s, list(b), list(b), {}, ['carried on'] * nz)
            n.cons = {q: v for q, v in sign.items() if sgn(q) is None and q in b}
            n.t, n.x = te, xe
            nxt.append(n)
        return
    ok = ctx.ob('an event is reported if and only if a function changed its sign in a watched direction', subj, bool(must or may) and ret is True, w, 'event reported, returned %s' % (ret,))
    if not ok:
        return
    j = iz.cval() if isinstance(iz, Poly) else None
    ok = ctx.ob('the reported function is one that changed its sign', subj, j is not None and int(j) in must + may, w, 'function %s' % tstr(iz)[:80])
    if not ok:
        return
    j = int(j)
    times = {}
    for i in set(must + [j]):
        d = cancel(pa.val[i] - b[i])
        times[i] = ZERO if sign[pa.val[i]] == 0 and sgn(pa.val[i]) == 0 else cancel(pa.val[i] / (pa.val[i] - b[i]))
    tau = times[j]
    degenerate = sign[pa.val[j]] == 0 and sign[b[j]] == 0
    if degenerate:
        # the function is zero at both ends: any time of the step is right
        q = cancel((t2 - pa.t) * h.inv())
        ctx.ob('the event lies in the step', subj, q.cval() is not None and 0 <= q.cval() <= 1, w, 'time %s' % tstr(t2)[:120])
        tau = q
    for i in must:
        if i != j and not degenerate:
            ctx.ob('the earliest event is taken', subj, c.with_((times[i] - tau, '<')).empty(), w, 'function %d may change earlier than function %d' % (i, j))
    want_t = cancel(pa.t + h * tau)
    want_x = (pa.x + (xe - pa.x) * tau)

    def same(a, b2):
        d = cancel(a - b2)
        return not d.t or not is_vec(d) and c.implies(d, '==')

    def is_vec(p):
        return any(is_v(a) for a in p.atoms())

    def samev(a, b2):
        d = a - b2
        # coefficientwise
        for va in {a for a in d.atoms() if is_v(a)}:
            co = coef(d, va)
            if co.t and not (not cancel(co).t or c.implies(co, '==')):
                return False
        return True
    ok = ctx.ob('the step is truncated at the interpolated time', subj, same(t2, want_t), w, 'time %s, expected %s' % (tstr(t2)[:120], tstr(want_t)[:120]))
    okx = len(sw) == 1 and samev(sw[0][3], want_x)
    ctx.ob('the state is interpolated at the event time', subj, okx, w, 'state %s, expected %s' % (tstr(sw[0][3])[:150] if sw else None, tstr(want_x)[:150]))
    ok = ok and okx
    ctx.ob('the right-hand side switches once, at the event, and the state it leaves is handed on', subj, len(sw) == 1 and same(sw[0][2], want_t) and x2 == Poly.atom(('V', ('S', sw[0][3]))), w, '%d switches' % len(sw))
    trs = sw[0][1] if sw else None
    ctx.ob('exactly the transition of the reported function is announced', subj, trs is not None and all(is_sign(c, trs[i], sign[b[j]] if i == j else 0) for i in range(nz)), w, 'transitions %s, expected %s' % (trs, sign[b[j]]))
    ctx.ob('the reported transition is the new sign', subj, is_sign(c, tt, sign[b[j]]), w, 'transition %s' % tstr(tt)[:80])
    # what is remembered
    rec = [i for i in range(nz) if flags[i] & REC]
    after = [e for e in s.auto[[n for n, e in enumerate(s.auto) if e[0] == 'switch'][-1]:] if e[0] == 'sample'] if sw else []
    if rec:
        good = bool(after) and any(same(e[1], want_t) and e[2] == x2 for e in after)
        ok = ctx.ob('functions to be recomputed are sampled after the switch', subj, good, w, 'samples %s' % len(after)) and ok
    if nxt is None or not ok:
        return
    n = Path(s.copy(), [None] * nz, [None] * nz, {}, ['carried on'] * nz)
    for i in range(nz):
        if i in rec:
            z = Z(after[-1][1], after[-1][2], i)
            n.val[i] = n.mem[i] = z
            n.what[i] = 'switched' if i == j else 'carried on'
        elif i == j:
            n.val[i] = ZERO
            n.mem[i] = Poly.const(sign[b[i]]) if flags[i] & 3 == BOTH else ZERO
            n.what[i] = 'switched'
        else:
            uniq[0] += 1
            a = Poly.atom(('lerp', k, i))
            lerp = pa.val[i] + (b[i] - pa.val[i]) * tau
            u, v = sign[pa.val[i]], sign[b[i]]
            n.val[i] = a
            n.mem[i] = pa.mem[i] if flags[i] & 3 == BOTH else a
            if sign[pa.mem[i]] is not None:
                n.mem[i] = Poly.const(sign[pa.mem[i]]) if flags[i] & 3 == BOTH else a
            # the earliest event comes first: the function cannot have changed its sign strictly before
            n.cons[a] = u
            replace(n.st, this, lerp, a)
    simplify(n.st, this)
    n.t, n.x = Poly.atom('tev%d' % k), Poly.atom(('V', 'xev%d' % k))
    rename(n, t2, x2, this)
    nxt.append(n)


def coef(p, va):
    out = ZERO
    for m, c in p.t.items():
        d = dict(m)
        if d.get(va):
            out = out + Poly({tuple(x for x in m if x[0] != va): c})
    return out


def is_sign(c, v, s):
    if not isinstance(v, Poly):
        return False
    return v.cval() == s if v.cval() is not None else c.implies(v - Poly.const(s), '==')


def simplify(st, this):
    for k, v in list(st.store.items()):
        if k[:len(this)] == this:
            if isinstance(v, Poly):
                st.store[k] = cancel(v)
            elif isinstance(v, tuple) and v and v[0] == 'vec':
                st.store[k] = ('vec', v[1].map_atoms(lambda a: None), v[2])


def replace(st, this, old, new):
    old = cancel(old)
    for k, v in list(st.store.items()):
        if k[:len(this)] == this and isinstance(v, Poly) and cancel(v) == old:
            st.store[k] = new


def rename(n, t2, x2, this):
    """the event time and state under new names"""
    pass
