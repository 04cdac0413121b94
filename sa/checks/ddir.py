"""Descent directions of the Newton method: which Jacobian they solve with."""
import itertools
from entries import FT, MT
from fprint import Fprint, P
from terms import Poly, ZERO, Iv
from checks.linalg import sym
from checks.jacobian import MapClient, MapRun, derivative, finish, loc, FULL, PATS
from harness import q_of
from program import AnalysisError

CLS = {'simple': 'SimpleNewtonDescentDirection', 'const': 'ConstJacobianNewtonDescentDirection',
       'broyden': 'JacobianBroydenUpdateNewtonDescentDirection', 'fake': 'JacobianFakeBroydenUpdateNewtonDescentDirection',
       'lazy': 'JacobianLazyFakeBroydenUpdateNewtonDescentDirection', 'hart': 'JacobianHartUpdateNewtonDescentDirection'}
SCENE = 'verif_entry::DScene'
FULL2, LOWER = frozenset(FULL(2)), frozenset({(0, 0), (1, 0), (1, 1)})
UPPER = frozenset({(0, 0), (0, 1), (1, 1)})


class DClient(MapClient):
    """the Jacobian of a point is an arbitrary matrix with a given pattern of stored elements; values with many terms are
    represented by their value numbers"""
    name_big = 8

    def __init__(self, deps, pats):
        super().__init__(deps, True)
        self.pats = pats
        self.fp = Fprint()
        self.log = ()

    def named(self, v):
        x = self.fp(v)
        return ZERO if x == 0 else Poly.atom(('vn', x))

    def on_assert(self, I, st, fr, e):
        # a factorisation that exists and steps that are not zero are the subject (and assumptions) of C13
        if fr is None or 'LUFactorizer' not in (fr.fn.cls or ''):
            super().on_assert(I, st, fr, e)

    def prefer(self, I, f, out):
        """in generic histories no value vanishes by chance"""
        flip = False
        while f and f[0] == 'not':
            f, flip = f[1], not flip
        if f[0] == 'cmp' and f[1] == '==':
            return [o for o in out if o[1] is flip]
        return out

    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        if q == 'verif_entry::stored':
            k, i, j = (int(a.cval()) for a in args)
            return [(st, (i, j) in self.pats[k % len(self.pats)])]
        if q == 'verif_entry::anyJ':
            k, i, j = (int(a.cval()) for a in args[:3])
            outs = [(st, [])]
            for c in (0, 1):
                outs = [(s2, l + [v]) for s, l in outs for s2, v in I.run(self.get, None, [args[3], Poly.const(c)], s)]
            key = (('R', 'ghost'), ('f', 'ghost', 'computed'))
            res = []
            for s, l in outs:
                s.store[key] = s.store.get(key, ()) + ((k, i, j),)
                res.append((s, Poly.atom(('J', i, j, tuple(l)))))
            return res
        return super().vcall(I, st, fr, n, fid, ol, args)

    def notify(self, I, st, fr, node, ol, args):
        name = ol[-1][2] if isinstance(ol[-1], tuple) and ol[-1][0] == 'f' else '?'
        if name in ('ddirPreObservers', 'ddirPostObservers', 'jacobianObservers', 'jacobianRefreshObservers'):
            key = (('R', 'ghost'), ('f', 'ghost', 'obs'))
            st.store[key] = st.store.get(key, ()) + ((name[:-len('Observers')], args[0] if name.startswith('jacobianRefresh') else None),)

    def cxx(self, I, st, fr, node, q, ol, args):
        if q == 'ctm::cxx::IdentifiedElements::empty':
            cbs = st.store.get(ol + (('f', 'cxx', '#callbacks'),))
            return [(st, not (cbs and cbs[0] == 'cbs' and cbs[1]))]
        return super().cxx(I, st, fr, node, q, ol, args)


def ghost(st, name):
    return st.store.get((('R', 'ghost'), ('f', 'ghost', name)), ())


class DRun(MapRun):
    def __init__(self, p, deps, pats):
        c = DClient(deps, pats)
        super(MapRun, self).__init__(p, c)
        c.get = self.fns['v_get']


class Oracle:
    """the matrix the direction has to be computed with, in value numbers, on one path"""

    def __init__(self, kind, fp, facts, pats):
        self.kind, self.fp, self.pats = kind, fp, pats
        self.zero = {0}
        for f, v in facts.items():
            if isinstance(f, Poly) and isinstance(v, Iv) and v.lo is not None and v.lo == v.hi:
                z = fp(f - Poly.const(v.lo))
                self.zero |= {z, -z % P}
        self.J = None
        self.k = 0
        self.prev = None
        self.acc = None
        self.action = 'recompute'
        self.last_it = 0

    def reset(self, hard):
        if hard:
            self.J = None
            self.action = 'recompute'
        self.prev = None

    def report(self, success):
        self.action = ('leave' if self.last_it + 1 <= 10 else 'update') if success else 'recompute'

    def fresh(self, x):
        pat = self.pats[self.k % len(self.pats)]
        self.k += 1
        return {i: self.fp(Poly.atom(('J', i[0], i[1], tuple(x)))) for i in pat}

    def secant(self, J, x, f, only):
        """what a secant (Broyden) correction adds to J"""
        fp = self.fp
        dx = [fp(a - b) for a, b in zip(x, self.prev[0])]
        df = [fp(a - b) for a, b in zip(f, self.prev[1])]
        n2 = sum(d * d for d in dx) % P
        inv = pow(n2, P - 2, P)
        left = [(df[i] - sum(J.get((i, j), 0) * dx[j] for j in (0, 1))) * inv % P for i in (0, 1)]
        upd = {}
        for i in (0, 1):
            for j in (0, 1):
                u = left[i] * dx[j] % P
                if (only is None or (i, j) in only) and u not in self.zero:
                    upd[i, j] = u
        return upd

    def step(self, x, f, it):
        """(is the Jacobian computed anew, matrix)"""
        k = self.kind
        anew = self.J is None
        if k == 'simple':
            anew = True
        if k == 'lazy' and it == 0 and self.action == 'recompute':
            anew = True
        if anew:
            self.J = self.fresh(x)
            self.acc = {i: 0 for i in self.J}
        elif self.prev is not None and k in ('broyden', 'fake'):
            u = self.secant(self.J, x, f, set(self.J) if k == 'fake' else None)
            self.J = add(self.J, u)
        elif self.prev is not None and k == 'lazy':
            self.acc = add(self.acc, self.secant(self.J, x, f, set(self.J)))
        if k == 'lazy' and it == 0 and self.action == 'update':
            self.J = add(self.J, self.acc)
            self.acc = {i: 0 for i in self.J}
        hart = k == 'hart' and not anew and self.prev is not None
        old = self.prev
        self.prev = (x, f)
        self.last_it = it
        return anew, self.J, (old if hart else None)


def add(a, b):
    r = dict(a)
    for i, v in b.items():
        r[i] = (r.get(i, 0) + v) % P
    return r


WORDS = {'i': 'iteration', 's': 'soft reset', 'h': 'hard reset', 'S': 'success', 'F': 'failure', '9': 'iteration 12'}
HIST = ['i', 'ii', 'iii', 'isi', 'iisi', 'ihi', 'iihi', 'iihii', 'hiihsi', 'siisii']
LAZY = ['iSsi', 'i9Ssi9Ssi', 'ii9Ssi9FsiSsi', 'iiSsii', 'i9Ssi', 'i9Ssii', 'ii9SsiiSsi', 'iFsi', 'iiFsii', 'i9Fsii', 'ii9Shii', 'iFhii', 'i9SsiFsii', 'i9SisSii', 'i9Siii', 'iSsi9Ssi', 'iihiSsii', 'ihiSsi']


def direction(ctx, item):
    kind, pats, keep, hist, obs = item
    r = DRun(ctx.p, {1: FULL(2), 2: FULL(2)}, pats)
    I, fp = r.I, r.c.fp
    r.c.generic = sum(c in 'i9' for c in hist) > (2 if not obs else 1)
    r.obj('s', SCENE)
    r.do('ds_' + kind, 's')
    r.do('ds_provider', 's', 2, keep)
    r.do('ds_connectRev' if len(hist) % 2 else 'ds_connect', 's', 1, 2)
    for o in ('dir', 'lux', 'seenx', 'seenf', 'seend'):
        r.obj(o, 'ctm::math::VectorTemplate<ctm::math::VectorData<double>>')
    r.obj('seenJ', FT)
    if obs:
        r.do('ds_observe', 's')
    bad, it, k, ops = [], 0, 0, []
    for op in hist:
        if op in 'sh':
            r.do('ds_reset', 's', op == 'h')
            ops.append((op,))
            it = 0
            continue
        if op in 'SF':
            r.do('ds_report', 's', op == 'S')
            ops.append((op,))
            it = 0
            continue
        if op == '9':
            it = 12
        k += 1
        xs, fs = sym('x%d_' % k, 2), sym('f%d_' % k, 2)
        r.vec('x%d' % k, xs)
        r.vec('f%d' % k, fs)
        for s in r.sts:
            for n in ('computed', 'obs'):
                s.store.pop((('R', 'ghost'), ('f', 'ghost', n)), None)
        r.do('ds_computeRet' if k == 3 else 'ds_compute', 's', 'dir', 'x%d' % k, 'f%d' % k, it)
        ops.append((xs, fs, it))
        it += 1
        # what it has to be, replayed on every path
        nxt = []
        for s in r.sts:
            o = Oracle(kind, fp, s.facts, pats)
            for p in ops:
                if p[0] in ('s', 'h'):
                    o.reset(p[0] == 'h')
                elif p[0] in ('S', 'F'):
                    o.report(p[0] == 'S')
                else:
                    anew, J, hart = o.step(*p)
            what = 'iteration %d' % k
            e = [x for x in ghost(s, 'obs')]
            names = [x[0] for x in e]
            if names.count('ddirPre') != 1 or names.count('ddirPost') != 1 or names.index('ddirPre') > names.index('ddirPost'):
                bad.append('%s: the observers of the computation are notified of %s' % (what, names))
            refr = [x[1] for x in e if x[0] == 'jacobianRefresh']
            if refr != ([True, False] if anew else []):
                bad.append('%s: observers are told of %d refreshes, %s is due' % (what, len(refr) // 2, 'one' if anew else 'none'))
            if bool(ghost(s, 'computed')) != anew:
                bad.append('%s: the Jacobian is %s' % (what, 'computed, although the one in use is to be kept' if not anew else 'not computed anew'))
                nxt.append(s)
                continue
            if 'jacobian' not in names and (kind not in ('const', 'hart') or obs):
                bad.append('%s: the Jacobian is not reported' % what)
            for s2, d in r.vval(s, 'dir'):
                if kind == 'hart':
                    continue
                if d is None or len(d) != 2:
                    bad.append('%s: the size of the direction' % what); continue
                dv = [fp(v) if isinstance(v, Poly) else None for v in d]
                if None in dv or any((sum(J.get((i, j), 0) * dv[j] for j in (0, 1)) + fp(fs[i])) % P for i in (0, 1)):
                    bad.append('%s: the direction does not solve J d = -f with the %s Jacobian' % (what, 'current' if anew else 'kept' if kind in ('const', 'lazy') else 'updated'))
            if obs and kind != 'hart':
                for s2, _ in r.raw(s.copy(), 'ds_seen', ['s', 'seenJ', 'seenx', 'seenf', 'seend']):
                    for s3, m in r.mval(s2, 'seenJ', 'ff'):
                        o2 = Oracle(kind, fp, s3.facts, pats)
                        if m is None or m[:2] != (2, 2) or any(fp(m[2].get(i, ZERO)) != J.get(i, 0) and not (i not in m[2] and J.get(i, 0) in o2.zero) for i in FULL2):
                            bad.append('%s: the Jacobian reported to observers is not the one in use' % what)
                    for nm, want in (('seenx', xs), ('seenf', fs)):
                        for s3, v in r.vval(s2, nm):
                            if v != want:
                                bad.append('%s: observers are given another %s' % (what, {'seenx': 'point', 'seenf': 'residual'}[nm]))
                    for s3, v in r.vval(s2, 'seend'):
                        for s4, d in r.vval(s3, 'dir'):
                            if v != d:
                                bad.append('%s: observers are given another direction' % what)
            for nm, want in (('x%d' % k, xs), ('f%d' % k, fs)):
                for s2, v in r.vval(s, nm):
                    if v != want:
                        bad.append('%s: an argument is changed' % what)
            if kind == 'hart':
                # the same factorisation, updated by the secant pair of the last two iterations
                s1 = [s.copy()]
                if anew:
                    s1 = fresh_lu(r, s1, J, k)
                elif hart:
                    s1 = secant_lu(r, s1, xs, fs, hart, k)
                for s2 in s1:
                    for s3, _ in r.raw(s2, 'ds_luSolve', ['s', 'lux', 'f%d' % k]):
                        for s4, want in r.vval(s3, 'lux'):
                            for s5, d in r.vval(s4, 'dir'):
                                if d is None or len(d) != 2 or any(not isinstance(a, Poly) or fp(a + b) for a, b in zip(d, want)):
                                    bad.append('%s: the direction does not solve J d = -f with the %s' % (what, 'current Jacobian' if anew else 'secant update of the kept Jacobian'))
                        nxt.append(s3)
            else:
                nxt.append(s)
        r.sts = I.dedupe(nxt)
    subj = '%s, %s%s%s: %s' % (kind, '/'.join({FULL2: 'full', LOWER: 'lower', UPPER: 'upper'}[p] for p in pats), ', Jacobian kept by its provider' if keep else '',
                             ', observed' if obs else '', ', '.join(WORDS[c] for c in hist))
    finish(r, ctx, 'the direction solves the linearised equation with the Jacobian that is due', subj, loc(ctx, '::' + CLS[kind] + '::computeDescentDirection'), list(dict.fromkeys(bad)))


def fresh_lu(r, sts, J, k):
    name = 'lum%d' % k
    out = []
    old, r.sts = r.sts, sts
    r.obj(name, MT)
    r.do('m_make', name, 2, 2)
    xs = sym('x%d_' % k, 2)
    for (i, j) in sorted(J):
        r.do('m_put', name, i, j, Poly.atom(('J', i, j, tuple(xs))))
    r.do('ds_luSet', 's', name)
    out, r.sts = r.sts, old
    return out


def secant_lu(r, sts, xs, fs, prev, k):
    old, r.sts = r.sts, sts
    for nm in ('lus', 'luy'):
        r.cls.pop('%s%d' % (nm, k), None)
    r.vec('lus%d' % k, [a - b for a, b in zip(xs, prev[0])])
    r.vec('luy%d' % k, [a - b for a, b in zip(fs, prev[1])])
    r.do('ds_luSecant', 's', 'lus%d' % k, 'luy%d' % k)
    out, r.sts = r.sts, old
    return out


def connected(ctx, item):
    """the provider computes Jacobians of the mapping of the direction, however they are put together"""
    kind, prov, order = item
    r = DRun(ctx.p, {1: FULL(2), 2: FULL(2)}, (FULL2,))
    r.obj('s', SCENE)
    r.do('ds_' + kind, 's')
    r.do('ds_' + prov, 's')
    bad = []

    def same(what):
        for s in r.sts:
            for s2, v in r.ask(s, 'ds_sameMapping', 's'):
                for s3, b in r.I.branch(s2, v):
                    if not b:
                        bad.append('the provider has another mapping than the direction %s' % what)
    r.do('ds_' + order, 's', 1, 2)
    same('after both are set')
    r.do('ds_mapping', 's', 2, 2)
    same('after another mapping is set')
    r.do('ds_' + prov, 's')
    r.do('ds_again', 's')
    same('after another provider is set')
    finish(r, ctx, 'the provider has the mapping of the direction', '%s with %s provider, %s first' % (kind, prov, 'mapping' if order.endswith('Rev') else 'provider'),
           loc(ctx, '::' + CLS[kind] + '::computeDescentDirection'), list(dict.fromkeys(bad)))


def directions(ctx):
    """Element-wise forward abstract interpretation of histories of descent direction computations with an arbitrary Jacobian
    provider; the result must solve the linearised equation with the Jacobian of the point that is due, in value numbers."""
    items = []
    for kind in CLS:
        hs = HIST + (LAZY if kind == 'lazy' else [])
        if ctx.tier == 'thorough':
            hs = hs + [''.join(h) for n in range(2, 6) for h in itertools.product('ishF9S' if kind == 'lazy' else 'ish', repeat=n)
                       if h[-1] in 'i9' and not any(a in 'shSF' and b in 'hSF9' for a, b in zip(h, h[1:])) and h[0] not in 'SF9']
            hs = [h for h in dict.fromkeys(hs) if sum(c in 'i9' for c in h) <= 4]
        for h in hs:
            for keep in (False, True):
                pats = ((FULL2,), (LOWER, UPPER), (LOWER,))
                for ps in pats:
                    if keep and 'h' not in h and ps != (FULL2,):
                        continue
                    items.append((kind, ps, keep, h, False))
        for h in ('ii', 'ihi', 'iii', 'isi') + (('i9Ssi',) if kind == 'lazy' else ()):
            items.append((kind, (FULL2,), False, h, True))
    items = [(direction, it) for it in items]
    for kind in CLS:
        for prov in ('default', 'sparse'):
            for order in ('connect', 'connectRev'):
                items.append((connected, (kind, prov, order)))
    ctx.pmap(lambda c, it: it[0](c, it[1]), items)
    ctx.floor('paths', ctx.counts.get('paths', 0), 100)
