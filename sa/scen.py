"""Scenarios over the ODE solvers: abstract runs of the public API with the collaborators left symbolic."""
from harness import *
from terms import subst
import absint

T0 = Poly.atom('t0'); H0 = Poly.atom('h0')
X0 = ('R', 'x0')
NV = Poly.atom(('size', 'n'))


def fatom(t, x):
    return ('V', ('F', t, x))


class SolverClient(Base):
    """ODE right-hand side = uninterpreted function atom F(t,x); error norm, step size control, events are opaque."""

    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        if q == N + 'OdeRhs::rhs':
            dst = args[0][1]
            x = I.read_vec(st, args[2][1], '', fr, n)
            cur = I.read_vec(st, dst, '', fr, n)
            tag = 'F' if ol == (('P', 'rhs'),) else ('F', ol)
            I.write(st, dst, ('vec', Poly.atom(('V', (tag, args[1], x[1]))), cur[2]), fr, n)
            return [(st, None)]
        if q in (N + 'OdeRhs::beforeStep', N + 'OdeRhs::beforeStep2'):
            return [(st, None)]
        if q == N + 'OdeRhs::varCount':
            return [(st, NV)]
        if q == N + 'OdeStepSizeController::controlStepSize':
            return control_result(I, st, fr, n, args)
        return None


def control_result(I, st, fr, n, args):
    """an arbitrary decision of the step size controller, except that a rejected step comes with a new step size
    (otherwise the same attempt would be repeated for ever)"""
    cls = strip(n.get('t'))
    av = [I.read(st, a[1], 'double', fr, n) if isinstance(a, tuple) and a and a[0] == 'ref' else a for a in args]
    i = I.fresh(st, ('ctl', I.uid(n)))
    out = []
    for acc, chg in ((True, True), (True, False), (False, True)):
        s = st.copy()
        loc = I.temp(fr, n)
        I.drop(s, loc)
        s.store[loc + BASE] = ('fresh',)
        s.store[loc + (('f', cls, 'acceptStep'),)] = acc
        s.store[loc + (('f', cls, 'changeStepSize'),)] = chg
        s.store[loc + (('f', cls, 'newStepSize'),)] = Poly.atom(('hnew', i)) if chg else av[0]
        out.append((s, ('agg', loc)))
    return out


def share(I, sts, this, cls, setter, v):
    """call a setter taking a shared pointer, by value or by reference, with the (non-null) pointer v"""
    f = method(I.p, cls, setter, 1)
    for s in sts:
        if isinstance(v, tuple) and v[0] == 'sym':
            s.facts[('nn', v)] = True
        if f.params[0].get('ref'):
            s.store[(('R', 'shared', setter),)] = v
    return each(I, sts, this, cls, setter, [('ref', (('R', 'shared', setter),)) if f.params[0].get('ref') else v], 1)


def solver_setup(p, cls, client, h=H0, ec='null', pre=None, this=(('R', 'this'),)):
    """construct cls, give it an rhs and an initial step size; returns (I, states)"""
    I = Interp(p, client)
    sts = new_object(I, State(), this, cls)
    sts = share(I, sts, this, cls, 'setOdeRhs', ('sym', 'rhs'))
    if ec == 'null':
        sts = share(I, sts, this, cls, 'setEventController', ('null',))
    elif ec == 'sym':
        sts = share(I, sts, this, cls, 'setEventController', ('sym', 'ec'))
    if h is not None:
        sts = each(I, sts, this, cls, 'setInitialStepSize', [h])
    return I, sts


def each(I, sts, this, cls, name, args=(), nparams=None, const=None):
    out = []
    for s in sts:
        out.extend(x for x, _ in call(I, s, this, cls, name, args, nparams, const))
    return out


def set_state(I, sts, this, cls, t=T0, x='x0', soft=False, size=NV):
    loc = (('R', x),)
    for s in sts:
        put_vec(s, loc, x, size)
    return each(I, sts, this, cls, 'setInitialState', [t, ('ref', loc), soft], nparams=3)


def getv(I, st, this, cls, name, t='double'):
    """values returned by const getter `name`, [(value)]"""
    out = []
    for s, v in call(I, st, this, cls, name, (), 0):
        if isinstance(v, tuple) and v and v[0] == 'ref':
            v = I.read(s, v[1], t)
        out.append(v)
    return out


def get_vec(I, st, this, cls, name='initialState'):
    out = []
    for s, v in call(I, st, this, cls, name, (), 0):
        if isinstance(v, tuple) and v and v[0] in ('ref', 'agg'):
            v = I.read_vec(s, v[1], '', None, None)
        out.append(v)
    return out


def peek(I, st, this, cls, name, args=()):
    """call a const getter from inside a running analysis without disturbing it; [(value)]"""
    save = I.exc
    try:
        out = []
        for s, v in call(I, st.copy(), this, cls, name, args, len(args)):
            f = method(I.p, cls, name, len(args))
            if isinstance(v, tuple) and v and v[0] in ('ref', 'agg') and not (f.ret or '').rstrip().endswith('*'):
                k = kind(f.ret)
                v = I.read_vec(s, v[1], '', None, None) if k in ('vec', 'blk') else I.read(s, v[1], f.ret)
            out.append(v)
        return out
    finally:
        I.exc = save


def solver_classes(p):
    """concrete, factory-registered implementations of the ODE solver interface"""
    base = N + 'OdeSolver<' + VD + '>'
    out = []
    for c in p.subclasses(base):
        if any(b['name'].startswith('ctm::FactoryMixin<') for b in p.classes[c]['bases']):
            out.append(c)
    return sorted(out)


def short(cls):
    return cls.split('<')[0].rsplit('::', 1)[1]


def param_members(p, cls):
    """data members of cls loaded by setParameters: [(class, field, type)], found by resolving the third argument of
    maybeLoadParameter in the methods of cls and its bases"""
    out = []
    for b in p.bases(cls):
        c = p.classes.get(b)
        for m in c['methods'] if c else []:
            f = p.fns.get(m['id'])
            if not f or f.name not in ('setParameters', 'loadParameters'):
                continue
            for n in walk(f.body):
                if n.get('k') == 'call' and (n.get('q') or '').endswith('::maybeLoadParameter'):
                    for a in n['a'][-1:]:
                        while a.get('k') in ('cast', 'rv'):
                            a = a['e']
                        if a.get('k') == 'mem':
                            out.append((a.get('fc') or '', a['f'], a.get('t')))
    return out


def havoc_params(I, st, this, cls, only=('bool', 'num')):
    """give every configuration parameter of cls an arbitrary value"""
    for fc, f, t in param_members(I.p, cls):
        if kind(t) in only:
            loc = this + (('f', fc, f),)
            I.drop(st, loc)
            st.store[loc] = mk(t, ('cfg', f))


def equalities(st):
    """substitution of merged values (phi/join atoms) which the path's facts equate with other forms"""
    mp = {k[1]: v for k, v in st.facts.items() if isinstance(k, tuple) and k[:1] == ('sub',)}
    for q, iv in st.facts.items():
        if isinstance(q, Poly) and isinstance(iv, Iv) and iv.lo is not None and iv.lo == iv.hi:
            r = absint.solve_eq(q - Poly.const(iv.lo), st.facts, lambda a: a not in mp)
            if r:
                mp[r[0]] = r[1]
    for _ in range(3):
        mp = {a: subst(v, {b: w for b, w in mp.items() if b != a}) for a, v in mp.items()}
    return mp
