from scen import *
from polyh import Cons
from terms import tstr, is_v

H, ERR, ORD = Poly.atom('h'), Poly.atom('err'), Poly.atom('order')
KEYS = ('tolerance', 'insurance', 'inc_min_factor', 'inc_max_factor', 'dec_max_factor', 'max_threshold')


def keyed_members(p, cls):
    """parameter name -> member location suffix, from the maybeLoadParameter calls of setParameters"""
    out = {}
    for b in p.bases(cls):
        c = p.classes.get(b)
        for m in c['methods'] if c else []:
            f = p.fns.get(m['id'])
            if not f:
                continue
            for n in walk(f.body):
                if n.get('k') == 'call' and (n.get('q') or '').endswith('::maybeLoadParameter') and len(n['a']) >= 2:
                    key = [x.get('v') for x in walk(n['a'][-2]) if x.get('lk') == 's']
                    a = n['a'][-1]
                    while a.get('k') in ('cast', 'rv'):
                        a = a['e']
                    if a.get('k') == 'mem' and key:
                        out[key[0]] = ('f', a.get('fc') or '', a['f'])
    return out


def reference(c):
    """the decisions the interface promises: (constraints, (accepted, changed, new step size)); any of several outcomes
    listed for a region is right there"""
    P, INS, TOL = c['p'], c['insurance'], c['tolerance']
    IMIN, IMAX, DMAX, MX = c['inc_min_factor'], c['inc_max_factor'], c['dec_max_factor'], c['max_threshold']
    keep = (True, False, H)
    out = [('error norm zero', [(ERR, '==')], [keep])]
    pos = [(ERR, '>')]

    def grow(name, cs, pd):
        # the factor pd is then bounded below by the least worthwhile and above by the greatest allowed one
        for n1, c1, small in (('no minimum', [(IMIN, '<=')], False), ('above the minimum', [(IMIN, '>'), (pd - IMIN, '>=')], False), ('below the minimum', [(IMIN, '>'), (pd - IMIN, '<')], True)):
            if small:
                out.append(('%s, %s' % (name, n1), cs + c1, [keep]))
                continue
            for n2, c2, new in (('no maximum', [(IMAX, '<=')], pd), ('up to the maximum', [(IMAX, '>'), (pd - IMAX, '<=')], pd), ('above the maximum', [(IMAX, '>'), (pd - IMAX, '>')], IMAX)):
                out.append(('%s, %s, %s' % (name, n1, n2), cs + c1 + c2, [(True, True, H * new)]))
    ok = pos + [(P - ONE, '>=')]
    pd = P * INS
    grow('tolerance met, no limit', ok + [(MX, '<=')], pd)
    grow('tolerance met, within the limit', ok + [(MX, '>'), (pd * H - MX, '<=')], pd)
    out.append(('tolerance met, step size beyond the limit', ok + [(MX, '>'), (pd * H - MX, '>'), (MX - H, '<')], [keep]))
    grow('tolerance met, limited', ok + [(MX, '>'), (pd * H - MX, '>'), (MX - H, '>=')], MX * H.inv())
    for n1, lo in (('tolerance missed by rounding', True), ('tolerance missed', False)):
        cs = pos + [(P - ONE, '<')] + [(P - Poly.const(1 - 2e-5), '>' if lo else '<=')]
        for n2, c2, new in (('no minimum factor', [(DMAX, '<=')], pd), ('within the minimum factor', [(DMAX, '>'), (pd - DMAX, '>=')], pd), ('limited by the minimum factor', [(DMAX, '>'), (pd - DMAX, '<')], DMAX)):
            out.append(('%s, %s' % (n1, n2), cs + c2, [(False, True, H * new)] + ([keep] if lo else [])))
    return out


def outcomes_of(I, f, this, s):
    for s2, v in I.run(f, this, [H, ERR, ORD], s):
        r = {}
        for k, w in s2.store.items():
            if isinstance(v, tuple) and k[:len(v[1])] == v[1] and len(k) == len(v[1]) + 1 and k[-1][0] == 'f':
                r[k[-1][2]] = w
        acc, chg, h = (r.get(x) for x in ('acceptStep', 'changeStepSize', 'newStepSize'))
        for s3, a in (I.branch(s2, acc) if isinstance(acc, (tuple, Poly)) else [(s2, acc)]):
            for s4, c in (I.branch(s3, chg) if isinstance(chg, (tuple, Poly)) else [(s3, chg)]):
                yield s4, (a, c, h)


def step_size_control(ctx):
    """Every path of every registered step size control (abstract interpretation with all its parameters, the step size,
    the error norm and the order left symbolic) is confronted with the decision table of the interface: for each region of
    the table which the conditions of the path do not exclude (convex polyhedra over the occurring monomials), the path's
    outcome (accepted, changed, new step size) must be the one of the table."""
    p = ctx.p
    classes = [c for c in p.subclasses(N + 'OdeStepSizeController<' + VD + '>') if any(b['name'].startswith('ctm::FactoryMixin<') for b in p.classes[c]['bases'])]
    ctx.floor('step size controls', len(classes), 1)
    paths = 0
    for cls in classes:
        this = (('R', 'this'),)
        I = Interp(p, Base())
        sts = new_object(I, State(), this, cls)
        km = keyed_members(p, cls)
        missing = [k for k in KEYS if k not in km]
        if missing:
            raise AnalysisError('%s: no member is loaded for parameter(s) %s' % (short(cls), ', '.join(missing)))
        c = {}
        for s in sts:
            for k in KEYS:
                loc = this + (km[k],)
                I.drop(s, loc)
                c[k] = s.store[loc] = Poly.atom(('cfg', k))
            for v in (H, c['tolerance'], c['insurance']):
                I.assume(s, ('cmp', '<', -v), True)
            I.assume(s, ('cmp', '<', ERR), False)
        base = c['tolerance'] / ERR
        f = method(p, cls, 'controlStepSize', 3)
        pa = Poly.atom(('app', 'pow', base, (ORD + ONE).inv()))
        c['p'] = pa
        atoms = {a for v in (H, ERR, c['tolerance'], c['insurance'], pa) for a in v.atoms()}
        pos = [next(iter(v.t))[0][0] for v in (H, c['tolerance'], c['insurance'], pa)]

        def rewrite(q, op):
            # err <= tol  <=>  p >= 1
            d = q
            for k in (-1, 1):
                if clear_eq(d, (ERR - c['tolerance']).scale(k)):
                    return (ONE - pa).scale(k), op
            return q, op

        def clear_eq(a, b):
            r = None
            if set(a.t) != set(b.t):
                return False
            for m in a.t:
                x = a.t[m] / b.t[m]
                if r is None:
                    r = x
                if x != r:
                    return False
            return r > 0
        for s in sts:
            for s2, got in outcomes_of(I, f, this, s):
                paths += 1
                path = Cons(pos, rewrite).facts(s2.facts)
                if path.empty():
                    continue
                for name, cs, outcomes in reference(c):
                    here = path.with_(*cs)
                    if here.empty():
                        continue
                    ok = False
                    for a, ch, h in outcomes:
                        if got[0] is a and got[1] is ch and isinstance(got[2], Poly) and (got[2] == h or here.implies(got[2] - h, '==')):
                            ok = True
                    ctx.ob('decision of the step size control', '%s: %s' % (short(cls), name), ok, f.rloc(), 'accepted %s, changed %s, new step size %s; expected %s' % (
                        got[0], got[1], tstr(got[2])[:120], ' or '.join('%s, %s, %s' % (a, b, tstr(x)[:100]) for a, b, x in outcomes)))
        ctx.ob('paths of the step size control end', short(cls), not I.exc, f.rloc(), 'a path leaves with an exception')
    ctx.floor('paths', paths, 8)
    ctx.assume('positive step size, tolerance and insurance; non-negative error norm; exact arithmetic, except that missing the tolerance by a relative 2e-5 in the step size factor may be forgiven')
