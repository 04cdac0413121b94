import itertools
from entries import Run, EntryClient, MT, FT
from harness import q_of
from polyh import Cons
from program import AnalysisError
from checks.linalg import sym, show, fabs
from checks.stepsize import keyed_members
from terms import Poly, ZERO, ONE, akey

D = Poly.atom(('V', 'delta'))
GHOST = (('R', 'ghost'),)
V = lambda n: Poly.atom(('V', n))


class MapClient(EntryClient):
    """the mapping is an arbitrary function with a given dependency pattern"""

    def __init__(self, deps, generic=False):
        super().__init__()
        self.deps = deps            # tag -> set of (row, column) the value may depend on
        self.differ = generic      # values at different arguments differ

    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        if q == 'verif_entry::any':
            tag, i = (int(a.cval()) for a in args[:2])
            outs = [(st, [])]
            cols = sorted(c for r, c in self.deps[tag] if r == i)
            for c in cols:
                outs = [(s2, l + [(c, v)]) for s, l in outs for s2, v in I.run(self.get, None, [args[2], Poly.const(c)], s)]
            res = []
            for s, l in outs:
                v = Poly.atom(('F', tag, i, tuple(l)))
                if self.differ:
                    k = GHOST + (('f', 'ghost', ('seen', tag, i)),)
                    seen = s.store.get(k, ())
                    if v not in seen:
                        for o in seen:
                            I.assume(s, ('cmp', '==', min(v - o, o - v, key=akey)), False)
                        s.store[k] = seen + (v,)
                res.append((s, v))
            return res
        if q == 'verif_entry::evaluated':
            k = GHOST + (('f', 'ghost', 'evals'),)
            st.store[k] = st.store.get(k, ()) + (int(args[0].cval()),)
            return [(st, None)]
        return None


def evals(st):
    return st.store.get(GHOST + (('f', 'ghost', 'evals'),), ())


class MapRun(Run):
    def __init__(self, p, deps, generic=False):
        c = MapClient(deps, generic)
        super().__init__(p, c)
        c.get = self.fns['v_get']

    def reset_evals(self):
        for s in self.sts:
            s.store.pop(GHOST + (('f', 'ghost', 'evals'),), None)
            for k in [k for k in s.store if k[:1] == GHOST and isinstance(k[1][2], tuple)]:
                del s.store[k]


def fd(st, v, tag, row, col, xs, deps, delta=None):
    """None if v is a consistent difference quotient of component `row` of mapping `tag` with respect to x[col] at xs, or the
    reason why it is not"""
    if not isinstance(v, Poly):
        return 'not a number'
    c0 = ZERO
    c1 = ZERO
    cols = sorted(c for r, c in deps[tag] if r == row)
    for m, c in v.t.items():
        fs = [(a, e) for a, e in m if isinstance(a, tuple) and a[0] == 'F']
        rest = Poly({tuple((a, e) for a, e in m if not (isinstance(a, tuple) and a[0] == 'F')): c})
        if len(fs) != 1 or fs[0][1] != 1:
            return 'it is not a linear combination of values of the mapping'
        _, t, i, args = fs[0][0]
        if t != tag or i != row:
            return 'it uses component %d of mapping %d' % (i, t)
        if [a for a, _ in args] != cols:
            return 'it uses other arguments'
        for a, x in args:
            d = x - xs[a]
            if a == col:
                if delta is not None:
                    if d not in (ZERO, delta, -delta):
                        return 'element %d of the argument is displaced by %s instead of the given step' % (a, show(d))
                elif d.cval() is None or abs(d.cval()) > 1e-4 or (d.cval() != 0 and abs(d.cval()) < 1e-10):
                    return 'element %d of the argument is displaced by %s, which is not a small step' % (a, show(d))
                c1 = c1 + rest * d
            elif d != ZERO:
                return 'element %d of the argument is displaced, too' % a
        c0 = c0 + rest
    if c0 != ZERO:
        return 'the weights of the values do not cancel: %s' % show(c0)
    if c1 != ONE and not near_one(c1):
        return 'the difference is divided by another quantity than the displacement: %s' % show(c1)
    return None


def near_one(c):
    c = c.cval()
    return c is not None and abs(c - 1) < 1e-9


def derivative(st, J, tag, n, k, xs, deps, may_drop, delta=None, only=None):
    """problems of matrix J as the Jacobian of the mapping at xs"""
    if J is None or J[:2] != (k, n):
        return ['the matrix has size %s' % (J and J[:2],)]
    bad = []
    for idx in J[2]:
        if idx not in deps[tag] or (only is not None and idx not in only):
            if J[2][idx] != ZERO:
                bad.append('element %s is %s although the mapping does not depend on it' % (idx, show(J[2][idx])))
    for (r, c) in sorted(deps[tag]):
        if only is not None and (r, c) not in only:
            continue
        v = J[2].get((r, c))
        if v is None or v == ZERO:
            if not may_drop:
                bad.append('element %s is missing' % ((r, c),))
            elif not dropped(st, tag, r, c, xs):
                bad.append('element %s is zero although the values of the mapping differ' % ((r, c),))
            continue
        w = fd(st, v, tag, r, c, xs, deps, delta)
        if w:
            bad.append('element %s: %s' % ((r, c), w))
    return bad


def dropped(st, tag, r, c, xs):
    """the path has established that the displaced value equals the one at xs"""
    for f, v in st.facts.items():
        if isinstance(f, Poly) and getattr(v, 'lo', None) == 0 and getattr(v, 'hi', None) == 0:
            fs = [x for m in f.t for x, e in m if isinstance(x, tuple) and x[0] == 'F']
            if len(fs) == 2 and all(x[1] == tag and x[2] == r for x in fs):
                moved = {k for x in fs for k, y in x[3] if y != xs[k]}
                if moved == {c}:
                    return True
    return False


FULL = lambda n: {(i, j) for i in range(n) for j in range(n)}
PATS = {
    'full 1': (1, FULL(1)), 'full 2': (2, FULL(2)), 'diagonal 3': (3, {(i, i) for i in range(3)}),
    'lower 3': (3, {(0, 0), (1, 0), (1, 1), (2, 2), (2, 1)}), 'arrow 3': (3, {(0, 0), (0, 1), (0, 2), (1, 1), (2, 2)}),
    'empty row 2': (2, {(0, 0), (0, 1)}), 'empty column 3': (3, {(0, 0), (1, 2), (2, 0), (0, 2)}), 'antidiagonal 3': (3, {(0, 2), (1, 1), (2, 0)}),
    'nothing 2': (2, set()),
}
BIG = {'full 3': (3, FULL(3)), 'tridiagonal 4': (4, {(i, j) for i in range(4) for j in range(4) if abs(i - j) <= 1}),
       'diagonal 5': (5, {(i, i) for i in range(5)}), 'arrow 5': (5, {(i, j) for i in range(5) for j in range(5) if i == j or i == 0 or j == 0}),
       'band 5': (5, {(i, j) for i in range(5) for j in range(5) if abs(i - j) <= 1})}
DEEP = {'band 7': (7, {(i, j) for i in range(7) for j in range(7) if abs(i - j) <= 2}), 'full 5': (5, FULL(5)), 'diagonal 9': (9, {(i, i) for i in range(9)}),
        'checker 6': (6, {(i, j) for i in range(6) for j in range(6) if (i + j) % 2 == 0})}


def partitions(n):
    out = [()]
    for i in range(n):
        out = [p + (k,) for p in out for k in range(max(p, default=-1) + 2)]
    return out


def finish(r, ctx, rule, subj, where, bad, counter='paths'):
    for what, w in r.c.bad:
        bad.append('%s (%s)' % (what, w))
    for w in r.c.asserts:
        bad.append('an assertion fails for valid arguments (%s)' % w)
    for fn, e in r.excs[:1]:
        bad.append('an exception is thrown (%s)' % (e[3].where(e[2]) if e[3] else fn))
    if not r.sts:
        bad.append('no result')
    ctx.count(counter, len(r.sts))
    ctx.ob(rule, subj, not bad, where, '; '.join(dict.fromkeys(bad))[:600])


def loc(ctx, q, hint=''):
    fs = [f for f in ctx.p.fns.values() if f.tmpl.endswith(q) and hint in (f.cls or "") and f.body is not None]
    if not fs:
        raise AnalysisError('%s vanished' % q)
    return fs[0].rloc()


def dense(ctx, item):
    name, (n, pat), generic = item
    r = MapRun(ctx.p, {1: pat}, generic)
    xs = sym('x', n)
    r.vec('x', xs)
    r.obj('J', MT)
    r.do('j_dense', 'J', 'x', 1, n)
    bad = []
    for s in r.sts:
        for s2, J in r.mval(s, 'J'):
            bad += derivative(s2, J, 1, n, n, xs, {1: pat}, not generic)
        for s2, v in r.vval(s, 'x'):
            if v != xs:
                bad.append('the argument is changed')
        if len(evals(s)) > 2 * n + 1:
            bad.append('%d evaluations of the mapping' % len(evals(s)))
    finish(r, ctx, 'dense Jacobian', '%s%s' % (name, ', values differ' if generic else ''), loc(ctx, 'math::computeJacobian'), bad)


def sparse_(ctx, item):
    name, (n, pat), extra, k = item
    pat = {(a, b) for a, b in pat if a < k}
    r = MapRun(ctx.p, {1: pat})
    xs = sym('x', n)
    r.vec('x', xs)
    r.fmat('J', k, n, {i: V('old%d_%d' % i) for i in sorted(pat | {e for e in extra if e[0] < k and e[1] < n})})
    r.reset_evals()
    r.do('j_sparse', 'J', 'x', 1, n, k, D)
    bad = []
    stored = pat | {e for e in extra if e[0] < k and e[1] < n}
    for s in r.sts:
        for s2, J in r.mval(s, 'J', 'ff'):
            bad += derivative(s2, J, 1, n, k, xs, {1: pat}, False, D)
            if J and set(J[2]) != stored:
                bad.append('the stored elements change')
        if len(evals(s)) > n + 1:
            bad.append('%d evaluations of the mapping' % len(evals(s)))
        if len(stored) == len({a for a, b in stored}) and len(evals(s)) > 2:
            bad.append('%d evaluations although no two columns have a common row' % len(evals(s)))
    finish(r, ctx, 'sparse Jacobian', '%s, %d rows, %d stored zeros' % (name, k, len(stored - pat)), loc(ctx, 'SparseJacobianCalculator::calculate'), bad)


def calculator(ctx, item):
    name, (n, pat) = item
    r = MapRun(ctx.p, {1: pat})
    xs, ys = sym('x', n), sym('y', n)
    r.vec('x', xs)
    r.vec('y', ys)
    r.fmat('J', n, n, {i: V('old%d_%d' % i) for i in sorted(pat)})
    r.reset_evals()
    bad, out = [], []
    for s in list(r.sts):
        for s2, v in r.raw(s, 'j_calculator', ['J', 'x', 'y', 1, n, n, D]):
            out.append(s2)
            if v.cval() is None or 2 * v.cval() != len(evals(s2)):
                bad.append('%s evaluations are announced, %d made' % (show(v), len(evals(s2)) / 2))
            for s3, J in r.mval(s2, 'J', 'ff'):
                bad += derivative(s3, J, 1, n, n, ys, {1: pat}, False, D)
    r.sts = out
    finish(r, ctx, 'repeated sparse Jacobian', name, loc(ctx, 'SparseJacobianCalculator::calculate'), bad)


OPS = {'c': 'computation', 't': 'trimmer set', 'n': 'trimmer removed', 'h': 'hard reset', 'm': 'other mapping', 's': 'mapping of another size', 'g': 'Jacobian modified by its user'}
HIST = ['c', 'cc', 'ccc', 'tc', 'tcc', 'ctc', 'ctcnc', 'tcnc', 'ctnc', 'cctnc', 'chc', 'cchc', 'cmc', 'ccmc', 'csc', 'tcsc', 'ctcsnc', 'hcc', 'tchnc', 'cmcc', 'cscc', 'cshcc', 'tcncc', 'tcnmcc', 'mc', 'cmsc']


def renewed(ctx, item):
    """an element that happened to vanish is found again after a hard reset"""
    kind_, hist = item
    deps = {1: {(0, 0), (0, 1), (1, 1)}}
    r = MapRun(ctx.p, deps)
    r.obj('s', 'verif_entry::JScene')
    r.do('js_' + kind_, 's')
    r.do('js_mapping', 's', 1, 2)
    bad, k = [], 0
    for op in hist:
        if op == 'h':
            r.do('js_hard', 's')
            continue
        k += 1
        xs = sym('x%d_' % k, 2)
        r.vec('x%d' % k, xs)
        r.do('js_compute', 's', 'x%d' % k)
    r.obj('J', FT)
    r.do('js_get', 's', 'J')
    for s in r.sts:
        for s2, v in r.mval(s, 'J', 'ff'):
            bad += derivative(s2, v, 1, 2, 2, xs, deps, True)
    cls = {'default': 'DefaultJacobianProvider', 'sparse': 'SparseJacobianProvider'}[kind_]
    finish(r, ctx, 'a hard reset renews the sparsity pattern', '%s provider: %s' % (kind_, ', '.join(OPS[c] for c in hist)), loc(ctx, '::' + cls + '::computeJacobian'), bad)


def provider(ctx, item):
    kind_, hist = item
    deps = {1: PATS['lower 3'][1], 2: {(0, 2), (1, 1), (2, 0), (0, 0)}, 3: FULL(2)}
    r = MapRun(ctx.p, deps, True)
    r.obj('s', 'verif_entry::JScene')
    r.do('js_' + kind_, 's')
    r.do('js_width', 's')
    width(r, 2)
    tag, n, k = 1, 3, 0
    r.do('js_mapping', 's', tag, n)
    bad, trim = [], False
    subj = '%s provider: %s' % (kind_, ', '.join(OPS[c] for c in hist))
    for i, op in enumerate(hist):
        if op == 't':
            r.do('js_trim', 's'); trim = True
        elif op == 'n':
            r.do('js_notrim', 's'); trim = False
        elif op == 'h':
            r.do('js_hard', 's')
        elif op in 'ms':
            tag, n = (2, 3) if op == 'm' else (3, 2)
            r.do('js_mapping', 's', tag, n)
        elif op == 'c':
            k += 1
            xs = sym('x%d_' % k, n)
            r.vec('x%d' % k, xs)
            r.reset_evals()
            r.do('js_compute', 's', 'x%d' % k)
            J = 'J%d' % k
            r.obj(J, FT)
            r.do('js_get', 's', J)
            for s in r.sts:
                for s2, v in r.mval(s, J, 'ff'):
                    for b in derivative(s2, v, tag, n, n, xs, deps, False, None, {(a, b) for a, b in deps[tag] if abs(a - b) < 2} if trim else None):
                        bad.append('computation %d: %s' % (k, b))
        if trim:
            for s in r.sts:
                if not all(v is True for _, v in r.ask(s, 'js_trimmerMapping', 's')):
                    bad.append('the trimmer does not have the mapping of the provider')
    cls = {'default': 'DefaultJacobianProvider', 'sparse': 'SparseJacobianProvider'}[kind_]
    finish(r, ctx, 'the Jacobian is the one of the current mapping at the given point', subj, loc(ctx, '::' + cls + '::computeJacobian'), bad)


TPATS = [(1, 1, FULL(1)), (2, 2, FULL(2)), (2, 2, {(0, 1), (1, 0)}), (3, 3, {(0, 0), (0, 2), (1, 2), (2, 0)}), (3, 3, {(2, 0), (0, 1), (1, 1)}), (3, 3, set())]


def trimmer(ctx, item):
    """a trimmer keeps values, and exactly those elements its parameter selects"""
    kind_, par, (rows, cols, pat) = item
    r = Run(ctx.p)
    els = {i: V('a%d%d' % i) for i in sorted(pat)}
    r.obj('s', 'verif_entry::JScene')
    r.do('js_' + kind_, 's')
    cls = {'threshold': 'JacobianThresholdBasedTrimmer', 'width': 'JacobianWidthBasedTrimmer'}[kind_]
    set_trimmer(r, cls, kind_, Poly.const(par))
    r.mat('m', rows, cols, els)
    r.mat('res', 1, 1, {(0, 0): V('old')})
    r.do('jt_trim', 's', 'res', 'm')
    bad = []
    ab = {i: fabs(v) for i, v in els.items()}
    for s in r.sts:
        fc = Cons().facts(s.facts)
        for s2, J in r.mval(s, 'm'):
            if J != (rows, cols, els):
                bad.append('the original matrix is changed')
        for s2, J in r.mval(s, 'res'):
            if J is None or J[:2] != (rows, cols):
                bad.append('the size of the result is %s' % (J and J[:2],)); continue
            for i in J[2]:
                if i not in els or J[2][i] != els[i]:
                    bad.append('element %s becomes %s' % (i, show(J[2][i])))
            for i in els:
                kept = i in J[2]
                if kind_ == 'width':
                    want = par == 0 or abs(i[0] - i[1]) < par
                    if kept != want:
                        bad.append('element %s is %s' % (i, 'kept' if kept else 'dropped'))
                elif i[0] == i[1]:
                    if not kept:
                        bad.append('diagonal element %s is dropped' % (i,))
                else:
                    t = Poly.const(par)
                    if kept and par and not all(j == i or fc.implies(ab[i] - t * ab[j], '>=') for j in els):
                        bad.append('element %s is kept although it may be less than %s of the greatest one' % (i, par))
                    if not kept and not any(j != i and fc.implies(ab[i] - t * ab[j], '<') for j in els):
                        bad.append('element %s is dropped although it may be at least %s of the greatest one' % (i, par))
    finish(r, ctx, 'trimmed Jacobian', '%s %s, %dx%d, elements %s' % (kind_, par, rows, cols, ' '.join('%d,%d' % i for i in sorted(pat))), loc(ctx, '::' + cls + '::trimJacobian'), bad)


def width(r, w):
    set_trimmer(r, 'JacobianWidthBasedTrimmer', 'width', Poly.const(w))


def set_trimmer(r, cls, key, val):
    full = [c for c in r.p.classes if c.startswith('ctm::math::%s<' % cls)]
    if len(full) != 1:
        raise AnalysisError('class %s vanished' % cls)
    suf = keyed_members(r.p, full[0]).get(key)
    if suf is None:
        raise AnalysisError('parameter %s of %s vanished' % (key, cls))
    for s in r.sts:
        ptr = None
        for k, v in s.store.items():
            if k[:1] == (('R', 's'),) and len(k) == 2 and k[1][0] == 'f' and k[1][2] == 'jt' and isinstance(v, tuple) and v[:1] == ('ref',):
                ptr = v[1]
        if ptr is None:
            raise AnalysisError('the trimmer of the scene is not found')
        s.store[ptr + (suf,)] = val


def jacobians(ctx):
    """Element-wise forward abstract interpretation of dense and sparse Jacobian computation, providers and trimmers: the
    mapping is an uninterpreted function with a given dependency pattern; every stored element must be a consistent difference
    quotient, over all paths."""
    deep = ctx.tier == 'thorough'
    items = [(dense, (k, v, False)) for k, v in PATS.items()] + [(dense, (k, v, True)) for k, v in list(PATS.items()) + list(BIG.items())]
    for k, v in list(PATS.items()) + list(BIG.items()) + (list(DEEP.items()) if deep else []):
        for extra in (set(), {(0, v[0] - 1)}, {(1, 0), (2, 2), (0, 1)}):
            for rows in (v[0], v[0] - 1, v[0] + 1):
                if rows:
                    items.append((sparse_, (k, v, extra, rows)))
        items.append((calculator, (k, v)))
    for n in (4, 5):
        for part in partitions(n):      # every way in which columns can share a row
            items.append((sparse_, ('columns sharing rows ' + ''.join(map(str, part)), (n, {(r, c) for c, r in enumerate(part)}), set(), n)))
    hist = HIST if not deep else [''.join(h) for n in range(1, 5) for h in itertools.product('ctnhms', repeat=n) if h[-1] == 'c']
    for kd in ('default', 'sparse'):
        for h in hist:
            items.append((provider, (kd, h)))
        for h in ('chc', 'cchc', 'hc'):
            items.append((renewed, (kd, h)))
    for tp in TPATS:
        for par in (0, 1, 2, 3, 4):
            items.append((trimmer, ('width', par, tp)))
        for par in (0, 0.5, 1, 1e-3):
            items.append((trimmer, ('threshold', par, tp)))
    ctx.pmap(lambda c, it: it[0](c, it[1]), items)
    ctx.floor('paths', ctx.counts.get('paths', 0), 100)
