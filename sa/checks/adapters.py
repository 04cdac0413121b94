"""Mapping adapters: narrowing, reordering, diagonal, normalised and right-hand side mappings."""
import itertools
from fprint import Fprint, P
from terms import Poly, ZERO, ONE
from checks.linalg import sym, show
from checks.jacobian import MapClient, MapRun, fd, finish, loc, FULL, V
from harness import q_of
from program import AnalysisError

VT = 'ctm::math::VectorTemplate<ctm::math::VectorData<double>>'
SCENE = 'verif_entry::AScene'
T = Poly.atom(('V', 't'))


class AClient(MapClient):
    def vcall(self, I, st, fr, n, fid, ol, args):
        if q_of(n) == 'verif_entry::anyRhs':
            tag, i = (int(a.cval()) for a in args[:2])
            outs = [(st, [])]
            for c in sorted(c for r, c in self.deps[tag] if r == i):
                outs = [(s2, l + [(c, v)]) for s, l in outs for s2, v in I.run(self.get, None, [args[3], Poly.const(c)], s)]
            return [(s, Poly.atom(('F', tag, i, tuple(l) + (('t', args[2]),)))) for s, l in outs]
        return super().vcall(I, st, fr, n, fid, ol, args)


class ARun(MapRun):
    def __init__(self, p, deps):
        c = AClient(deps, False)
        super(MapRun, self).__init__(p, c)
        c.get = self.fns['v_get']
        self.obj('s', SCENE)
        self.bad = []
        self.n = 0

    def F(self, tag, i, xs, *more):
        return Poly.atom(('F', tag, i, tuple((c, xs[c]) for r, c in sorted(self.c.deps[tag]) if r == i) + more))

    def result(self, fn, *args, old=0):
        """element lists of the vector filled by fn, over all paths; `old` elements are in it before"""
        self.n += 1
        name = 'r%d' % self.n
        self.vec(name, sym('old%d_' % self.n, old))
        self.do(fn, 's', name, *args)
        return [v for s in self.sts for _, v in self.vval(s, name)]

    def want(self, what, fn, args, want, olds=(0,), same=None):
        for old in olds:
            res = self.result(fn, *args, old=old)
            if not res:
                self.bad.append('%s: no result' % what)
            for v in res:
                if v is None or len(v) != len(want) or any(not ((same or (lambda a, b: a == b))(a, b)) for a, b in zip(v, want)):
                    self.bad.append('%s gives (%s) instead of (%s)' % (what, ', '.join(map(show, v or [])), ', '.join(map(show, want))))

    def number(self, what, fn, want):
        for s in self.sts:
            for _, v in self.ask(s, fn, 's'):
                if v != want:
                    self.bad.append('%s is %s instead of %s' % (what, show(v), show(want)))

    def map_is(self, fn, olds):
        """fn(x) = elements of the mapping at x"""
        self.n += 1
        n, want = fn
        xs = sym('x%d_' % self.n, n)
        x = 'x%d' % self.n
        self.vec(x, xs)
        w = want(xs)
        for how in ('a_map', 'a_mapRet'):
            self.want('the mapping', how, (x,), w, olds if how == 'a_map' else (0,))
        for s in self.sts:
            for _, v in self.vval(s, x):
                if v != xs:
                    self.bad.append('the argument is changed')
        self.number('the input size', 'a_inSize', Poly.const(n))
        self.number('the output size', 'a_outSize', Poly.const(len(w)))

    def throws(self, what, fn, *args):
        save = self.sts
        k = len(self.excs)
        self.do(fn, 's', *args)
        if self.sts or len(self.excs) == k:
            self.bad.append('%s is accepted' % what)
        after = [e[1][0] for e in self.excs[k:]]
        self.excs = self.excs[:k]
        self.sts = after or save


def code(l):
    return sum(d * 8 ** i for i, d in enumerate(l))


def consts(l):
    return [Poly.const(c) for c in l]


def narrowing(ctx, item):
    (nin, nout), rounds = item
    r = ARun(ctx.p, {1: {(i, j) for i in range(nout) for j in range(nin)}})
    r.do('a_narrow', 's', 1, nin, nout)
    st = None
    din, dout = [], []
    for k, (di, do) in enumerate(rounds):
        if di is not None:
            st = sym('st%d_' % k, nin)
            r.vec('st%d' % k, st)
            r.do('a_in', 's', code(di), len(di), 'st%d' % k)
            din = sorted(set(di))
        if do is not None:
            r.do('a_out', 's', code(do), len(do))
            dout = sorted(set(do))
        ein = [i for i in range(nin) if i not in din]
        eout = [i for i in range(nout) if i not in dout]

        def f(xs):
            full = [xs[ein.index(i)] if i in ein else st[i] for i in range(nin)]
            return [r.F(1, i, full) for i in eout]
        r.map_is((len(ein), f), (0, nout, len(eout)))
        r.want('the list of disabled inputs', 'a_inIdx', (), consts(din))
        r.want('the list of disabled outputs', 'a_outIdx', (), consts(dout))
        r.want('inputIds', 'a_inIds', (), consts(100 + i for i in ein))
        r.want('outputIds', 'a_outIds', (), consts(200 + i for i in eout))
        a, b, c = sym('a%d_' % k, nin), sym('b%d_' % k, nout), sym('c%d_' % k, len(ein))
        for n, v in (('a', a), ('b', b), ('c', c)):
            r.vec(n + str(k), v)
        for suf in ('', 'Ret'):
            o = (0, nin) if not suf else (0,)
            r.want('narrowInput', 'a_narrowIn' + suf, ('a%d' % k,), [a[i] for i in ein], o)
            r.want('narrowOutput', 'a_narrowOut' + suf, ('b%d' % k,), [b[i] for i in eout], o)
            r.want('widenInput', 'a_widenIn' + suf, ('c%d' % k,), [c[ein.index(i)] if i in ein else st[i] for i in range(nin)], o)
    for bad in ([nin], [0, nin + 1]):
        r.vec('none', sym('z', nin))
        r.throws('an input index that does not exist', 'a_in', code(bad), len(bad), 'none')
        r.want('after a failure the list of disabled inputs', 'a_inIdx', (), consts(din))
    r.throws('an output index that does not exist', 'a_out', code([nout]), 1)
    r.want('after a failure the list of disabled outputs', 'a_outIdx', (), consts(dout))
    txt = lambda l: '-' if l is None else '{%s}' % ' '.join(map(str, l))
    finish(r, ctx, 'narrowed mapping', '%d inputs, %d outputs: %s' % (nin, nout, ', then '.join('inputs %s outputs %s disabled' % (txt(a), txt(b)) for a, b in rounds)),
           loc(ctx, '::VectorNarrowingMapping::map'), r.bad)


def reordering(ctx, item):
    oi, oo = item
    nin, nout = len(oi), len(oo)
    r = ARun(ctx.p, {1: {(i, j) for i in range(nout) for j in range(nin)}})
    r.do('a_reorder', 's', 1, nin, nout, code(oi), code(oo))
    order = lambda o, l: [l[i] for i in o]
    unorder = lambda o, l: [l[o.index(i)] for i in range(len(o))]
    r.map_is((nin, lambda xs: order(oo, [r.F(1, i, unorder(oi, xs)) for i in range(nout)])), (0, nout + 1))
    r.want('inputIds', 'a_inIds', (), consts(100 + i for i in oi))
    r.want('outputIds', 'a_outIds', (), consts(200 + i for i in oo))
    a, b = sym('a', nin), sym('b', nout)
    r.vec('a', a)
    r.vec('b', b)
    for suf in ('', 'Ret'):
        o = (0, nin) if not suf else (0,)
        r.want('orderInput', 'a_orderIn' + suf, ('a',), order(oi, a), o)
        r.want('orderOutput', 'a_orderOut' + suf, ('b',), order(oo, b), o)
        r.want('unorderInput', 'a_unorderIn' + suf, ('a',), unorder(oi, a), o)
        r.want('unorderOutput', 'a_unorderOut' + suf, ('b',), unorder(oo, b), o)
    finish(r, ctx, 'reordered mapping', 'inputs %s, outputs %s' % (' '.join(map(str, oi)), ' '.join(map(str, oo))), loc(ctx, '::VectorReorderingMapping::map'), r.bad)


def diagonal(ctx, item):
    n = item
    r = ARun(ctx.p, {})
    fp = Fprint()
    d, x = sym('d', n), sym('x', n)
    r.vec('d', d)
    r.vec('x', x)
    r.do('a_diag', 's', 'd')
    r.map_is((n, lambda xs: [a * b for a, b in zip(d, xs)]), (0, n, n + 1))
    same = lambda a, b: isinstance(a, Poly) and fp.same(a, b)
    q = [a / b for a, b in zip(x, d)]
    r.want('unmap', 'a_unmap', ('x',), q, (0, n + 1), same)
    r.want('unmap', 'a_unmapRet', ('x',), q, (0,), same)
    r.want('the inverse', 'a_invMap', ('x',), q, (0, n), same)
    r.want('the inverse of the inverse', 'a_invUnmap', ('x',), [a * b for a, b in zip(d, x)], (0, n))
    for f in ('a_invIn', 'a_invOut'):
        r.number('the size of the inverse', f, Poly.const(n))
    # the diagonal is a copy
    finish(r, ctx, 'diagonal mapping', '%d variables' % n, loc(ctx, '::DiagonalMapping::map'), r.bad)


def normalised(ctx, item):
    n, pat = item
    r = ARun(ctx.p, {1: pat})
    fp = Fprint()
    d, x0, one = sym('d', n), sym('p', n), [ONE] * n
    for nm, v in (('d', d), ('p', x0), ('one', one)):
        r.vec(nm, v)
    r.do('a_normal', 's', 1, n, 'd')
    r.map_is((n, lambda xs: [d[i] * r.F(1, i, [a * b for a, b in zip(d, xs)]) for i in range(n)]), (0, n, n + 1))
    r.want('inputIds', 'a_inIds', (), consts(100 + i for i in range(n)))
    r.want('outputIds', 'a_outIds', (), consts(200 + i for i in range(n)))
    r.number('the input size', 'a_inSize', Poly.const(n))
    k = len(r.excs)
    r.do('a_normalize', 's', 'p')
    diag = all((i, i) in pat for i in range(n))
    thrown = r.excs[k:]
    r.excs = r.excs[:k]
    if not diag:
        if r.sts:
            r.bad.append('normalising with a zero diagonal element of the Jacobian is not refused')
        r.sts = [e[1][0] for e in thrown]
        r.want('after a failure the scales', 'a_scales', ('one',), d)
    else:
        if not r.sts:
            r.bad.append('normalising always fails')
        for e in thrown:
            s = e[1][0]
            if not any(vanishes(s, q, x0, {1: pat}) for q, iv in s.facts.items() if isinstance(q, Poly) and iv is not None and iv.lo == 0 and iv.hi == 0):
                r.bad.append('normalising fails although no diagonal element of the Jacobian vanishes')
        for s in r.sts:
            put(r, s, 'sc')
            r2 = [v for s1, _ in r.raw(s.copy(), 'a_scales', ['s', 'sc', 'one']) for _, v in r.vval(s1, 'sc')]
            for v in r2:
                if v is None or len(v) != n:
                    r.bad.append('the number of scales'); continue
                for i in range(n):
                    w = scale(s, fp, v[i], i, x0, {1: pat})
                    if w:
                        r.bad.append('scale %d: %s' % (i, w))
        # afterwards the mapping uses these scales
    for s in r.sts:
        for _, v in r.vval(s, 'p'):
            if v != x0:
                r.bad.append('the argument is changed')
    finish(r, ctx, 'normalised mapping', '%d variables, dependencies %s' % (n, ' '.join('%d%d' % i for i in sorted(pat))), loc(ctx, '::MappingNormalizer::map'), r.bad)


def put(r, s, name):
    save, r.sts = r.sts, [s]
    r.cls.pop(name, None)
    r.obj(name, VT)
    r.sts = save
    return name


def scale(s, fp, v, i, x0, deps):
    """None if v^2 |J_ii| = 1 for a difference quotient J_ii at x0"""
    if not isinstance(v, Poly):
        return 'not a number'
    quot = {}

    def walk(x):
        if isinstance(x, Poly):
            for m in x.t:
                for a, e in m:
                    walk(a)
        elif isinstance(x, tuple):
            if x[:2] == ('app', 'fabs'):
                quot[x[2]] = 1
            for y in x:
                walk(y)
    walk(v)
    for q in quot:
        for k in factors(v, q):
            J = q * k
            if fd(s, J, 1, i, i, x0, deps) is None and fp.same(v * v * Poly.atom(('app', 'fabs', J)), ONE):
                return None
    return 'it is %s' % show(v)


def vanishes(s, q, x0, deps):
    """whether q = 0 says that a diagonal element vanishes: an F_i at a point displaced in x_i equals F_i at x0"""
    fs = {a for m in q.t for a, _ in m if a[:1] == ('F',)}
    if len(fs) != 2 or len({a[2] for a in fs}) != 1:
        return False
    a, b = fs
    i = a[2]
    base = tuple((c, x0[c]) for r, c in sorted(deps[1]) if r == i)
    o = a if b[3] == base else b
    if base not in (a[3], b[3]):
        return False
    return all((x != y) == (c == i) for (c, x), (_, y) in zip(o[3], base))


def factors(v, q):
    """constant factors the difference quotient may have been divided by"""
    out = [ONE]
    for m, c in q.t.items():
        out.append(Poly.const(1 / c))
    for x in (1000000, 10 ** 7, 10 ** 8, 10 ** 5):
        out += [Poly.const(x), -Poly.const(x)]
    return out


def rhs_mapping(ctx, item):
    n1, n2 = item
    n = n1 + 2 * n2
    r = ARun(ctx.p, {1: FULL(n)})
    r.do('a_rhs', 's', 1, n1, n2, T)
    t = T
    for k in range(2):
        r.map_is((n, lambda xs: [r.F(1, i, xs, ('t', t)) for i in range(n)]), (0, n, n + 1))
        r.number('the time', 'a_time', t)
        t = Poly.atom(('V', 't2'))
        r.do('a_rhsTime', 's', t)
    for f in ('a_inIds', 'a_outIds'):
        r.want(f[2:], f, (), consts(300 + i for i in range(n)))
    finish(r, ctx, 'right-hand side as a mapping', '%d first order and %d second order variables' % (n1, n2), loc(ctx, '::OdeRhsVectorMapping::map'), r.bad)


def subsets(n):
    return [list(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)]


def adapters(ctx):
    """Element-wise forward abstract interpretation of mapping adapters over an uninterpreted mapping."""
    deep = ctx.tier == 'thorough'
    items = []
    for nin, nout in ((1, 1), (2, 2), (3, 2), (2, 3)) + (((3, 3), (4, 3), (3, 4)) if deep else ()):
        for a in subsets(nin):
            for b in subsets(nout):
                items.append((narrowing, ((nin, nout), [(a, b)])))
    extra = [((3, 3), [([2, 0], [1])]), ((3, 3), [([1, 1, 0], [2, 2])]), ((3, 3), [(None, [0])]), ((3, 3), [([1], None)]), ((3, 2), [([0, 1], [1]), ([2], [0])]),
             ((2, 3), [([0], [1]), ([], [])]), ((3, 3), [([0], [1]), (None, [2])]), ((3, 3), [([0], [1]), ([1], None)]), ((4, 4), [([0, 3], [1, 2])]), ((4, 4), [([1, 2], [3])]),
             ((4, 3), [([3, 1, 3], [0, 2])]), ((4, 4), [([0, 1, 2], [1, 2, 3])]), ((4, 4), [([1, 2, 3], [0, 1, 2])]), ((5, 5), [([0, 1, 2, 3], [1, 3])]), ((2, 2), [(None, None)])]
    items += [(narrowing, e) for e in extra]
    for nin, nout in ((1, 1), (2, 2), (3, 2), (2, 3), (3, 3)):
        for a in itertools.permutations(range(nin)):
            for b in itertools.permutations(range(nout)):
                items.append((reordering, (list(a), list(b))))
    items += [(reordering, ([2, 0, 3, 1], [1, 2, 3, 0])), (reordering, ([3, 2, 0, 1], [1, 0]))]
    items += [(diagonal, n) for n in (1, 2, 3)]
    items += [(normalised, x) for x in ((1, FULL(1)), (2, FULL(2)), (2, {(0, 0), (1, 0), (1, 1)}), (2, {(0, 0), (0, 1), (1, 0)}), (1, set()), (3, {(0, 0), (0, 2), (1, 1), (2, 2)}))]
    items += [(rhs_mapping, x) for x in ((1, 0), (0, 1), (1, 1), (2, 1))]
    ctx.pmap(lambda c, it: it[0](c, it[1]), items)
    ctx.floor('paths', ctx.counts.get('paths', 0), 100)
