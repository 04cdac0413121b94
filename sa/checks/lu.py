from scen import *
from fprint import Fprint
import itertools

CLS = 'ctm::math::LUFactorizer<double>'
THIS = (('R', 'this'),)


def pairs(p):
    """names of the classes holding the position and value of a matrix element, from the element type of setMatrix"""
    for f in p.fns.values():
        if f.cls == CLS and f.name == 'setMatrix' and len(f.params) == 2 and f.params[0]['t'].rstrip().endswith('*'):
            outer = strip(f.params[0]['t'].rstrip()[:-1].replace('const ', '', 1))
            inner = outer[len('std::pair<'):outer.index('>') + 1]
            return f, outer, inner
    raise AnalysisError('LUFactorizer::setMatrix vanished')


def fast(p):
    for f in p.fns.values():
        if f.cls == CLS and f.name == 'setMatrixFast' and len(f.params) == 2 and f.params[0]['t'].rstrip().endswith('*'):
            return f
    raise AnalysisError('LUFactorizer::setMatrixFast vanished')


def put_matrix(I, st, els, root, types):
    """the elements as an array of ((row, column), value); returns the two iterators"""
    f, outer, inner = types
    base = (('R', root),)
    I.drop(st, base)
    for k, (r, c, v) in enumerate(els):
        e = base + (('i', Poly.const(k)),)
        st.store[e + (('f', outer, 'first'), ('f', inner, 'first'))] = Poly.const(r)
        st.store[e + (('f', outer, 'first'), ('f', inner, 'second'))] = Poly.const(c)
        st.store[e + (('f', outer, 'second'),)] = v
    return [('ref', base + (('i', ZERO),)), ('ref', base + (('i', Poly.const(len(els))),))]


def values(n, pattern, tag=''):
    """A = L U for unknown L, U within the envelope, such that A vanishes outside the pattern: {(r, c): form}"""
    first = {}
    p = [min(c for c in range(n) if (r, c) in pattern) for r in range(n)]
    q = [min(r for r in range(n) if (r, c) in pattern) for c in range(n)]
    L, U = {}, {}
    for k in range(n):
        L[k, k] = ONE
    A = {}
    for d in range(2 * n - 1):
        for r in range(n):
            c = d - r
            if not 0 <= c < n:
                continue
            if not (c >= p[r] if r > c else r >= q[c]):
                continue
            m = min(r, c)
            s = ZERO
            for k in range(m):
                if (r, k) in L and (k, c) in U:
                    s = s + L[r, k] * U[k, c]
            if (r, c) in pattern:
                x = Poly.atom((tag + ('L' if r > c else 'U'), r, c))
            elif r > c:
                x = -s / U[c, c]
            else:
                x = -s
            if r > c:
                L[r, c] = x
                a = s + x * U[c, c]
            else:
                U[r, c] = x
                a = s + x
            if (r, c) in pattern:
                A[r, c] = a
    return A


def order(A, kind):
    ks = sorted(A)
    if kind == 'columns':
        ks.sort(key=lambda k: (k[1], k[0]))
    elif kind == 'reversed':
        ks.reverse()
    return [(r, c, A[r, c]) for r, c in ks]


def pname(n, pat):
    return '%dx%d {%s}' % (n, n, ' '.join('%d%d' % k for k in sorted(pat)))


class Fact:
    def __init__(self, ctx, I, types, what):
        self.ctx, self.I, self.types, self.what = ctx, I, types, what
        self.fp = Fprint()
        p = ctx.p
        self.solve = method(p, CLS, 'solve', 1)
        self.elementAt = method(p, CLS, 'elementAt', 2)

    def ob(self, rule, ok, detail='', f=None):
        self.ctx.ob(rule, self.what, ok, (f or self.solve).rloc(), detail)

    def feed(self, st, f, A, n, kind='rows'):
        res = self.I.run(f, THIS, put_matrix(self.I, st, order(A, kind), 'elements', self.types), st)
        self.ob('a matrix covering the diagonal is taken', len(res) == 1 and not self.I.exc, '%d ways to end, exceptions %s' % (len(res), [e[1] for e in self.I.exc][:1]), f)
        return res[0][0] if res else None

    def elements(self, st, A, n, rule, zero=None):
        """elementAt equals A everywhere"""
        bad = []
        for r in range(n):
            for c in range(n):
                for s2, v in self.I.run(self.elementAt, THIS, [Poly.const(r), Poly.const(c)], st.copy()):
                    w = A.get((r, c), ZERO)
                    if not (isinstance(v, Poly) and self.fp.same(v, w)):
                        bad.append('element (%d,%d) is %s instead of %s' % (r, c, tstr_(v), tstr_(w)))
        self.ob(rule, not bad, '; '.join(bad), self.elementAt)

    def check_solve(self, st, A, n, rule, xs='x'):
        x = [Poly.atom((xs, i)) for i in range(n)]
        b = [ZERO] * n
        for (r, c), v in A.items():
            b[r] = b[r] + v * x[c]
        base = (('R', 'rhs'),)
        self.I.drop(st, base)
        for i in range(n):
            st.store[base + (('i', Poly.const(i)),)] = b[i]
        res = self.I.run(self.solve, THIS, [('ref', base + (('i', ZERO),))], st)
        self.ob('solving ends', len(res) == 1 and not self.I.exc, '%d ways to end' % len(res))
        if not res:
            return None
        st = res[0][0]
        bad = []
        for i in range(n):
            v = self.I.read(st, base + (('i', Poly.const(i)),), 'double')
            if not (isinstance(v, Poly) and self.fp.same(v, x[i])):
                bad.append('unknown %d becomes %s' % (i, tstr_(v)))
        self.ob(rule, not bad, '; '.join(bad))
        return st


def tstr_(v):
    from terms import tstr
    return tstr(v)[:120]


def patterns(n):
    off = [(r, c) for r in range(n) for c in range(n) if r != c]
    for k in range(1 << len(off)):
        yield frozenset([(i, i) for i in range(n)] + [o for j, o in enumerate(off) if k >> j & 1])


def start(ctx, p, types, what):
    I = Interp(p, Base())
    I.bounds = True
    sts = new_object(I, State(), THIS, CLS)
    return Fact(ctx, I, types, what), sts[0]


def one_pattern(ctx, item):
    n, pats = item
    p = ctx.p
    types = pairs(p)
    setm, setf = types[0], fast(p)
    for pat in pats:
        A = values(n, pat)
        f, st = start(ctx, p, types, pname(n, pat))
        st = f.feed(st, setm, A, n, ('rows', 'columns', 'reversed')[len(pat) % 3])
        if st is None:
            continue
        f.elements(st, A, n, 'elements are returned as set')
        st = f.check_solve(st, A, n, 'solving gives the solution of the system')
        if st is None:
            continue
        f.elements(st, A, n, 'elements are returned as set after factorisation')
        st = f.check_solve(st, A, n, 'solving again gives the solution of the system', 'y')
        B = values(n, pat, 'b')
        st = f.feed(st, setf, B, n)
        if st is None:
            continue
        st = f.check_solve(st, B, n, 'solving after a fast update gives the solution of the updated system')
        ctx.count('sparsity patterns')


def changes(ctx, item):
    """fast updates with another pattern or size"""
    p = ctx.p
    types = pairs(p)
    for (n, a), (m, b) in item:
        f, st = start(ctx, p, types, '%s, then %s' % ('empty' if a is None else pname(n, a), pname(m, b)))
        if a is not None:
            st = f.feed(st, types[0], values(n, a), n)
            if (len(a) + len(b)) % 2:
                st = f.check_solve(st, values(n, a), n, 'solving gives the solution of the system')
        B = values(m, b, 'b')
        st = f.feed(st, fast(p), B, m)
        if st is None:
            continue
        for s, v in call(f.I, st, THIS, CLS, 'size'):
            f.ob('the size is that of the last matrix', v == Poly.const(m), 'size %s' % tstr_(v))
        f.elements(st, B, m, 'elements are returned as set')
        f.check_solve(st, B, m, 'solving after a fast update gives the solution of the updated system')
        ctx.count('matrix replacements')


def hart(ctx, item):
    n, pats = item
    p = ctx.p
    types = pairs(p)
    upd = method(p, CLS, 'secantUpdateHart', 2)
    for pat in pats:
        A = values(n, pat)
        f, st = start(ctx, p, types, pname(n, pat))
        f.I.c.max_states = 1 << 20
        st = f.feed(st, types[0], A, n)
        if st is None:
            continue
        if len(pat) % 2:
            st = f.check_solve(st, A, n, 'solving gives the solution of the system')
        env = {(r, c) for r in range(n) for c in range(n) if
               (c >= min(k for k in range(n) if (r, k) in pat) if r > c else r >= min(k for k in range(n) if (k, c) in pat))}
        for nm in 'sy':
            for i in range(n):
                st.store[(('R', nm), ('i', Poly.const(i)))] = Poly.atom((nm, i))
        res = f.I.run(upd, THIS, [('ref', (('R', 's'), ('i', ZERO))), ('ref', (('R', 'y'), ('i', ZERO)))], st)
        f.ob('the secant update ends', bool(res) and not f.I.exc, '', upd)
        for s, _ in res:
            zero = {q - Poly.const(iv.lo) for q, iv in s.facts.items() if isinstance(q, Poly) and isinstance(iv, Iv) and iv.lo is not None and iv.lo == iv.hi}
            zs = set()
            for z in zero:
                v = f.fp(z)
                zs |= {v, -v % ((1 << 61) - 1)}
            B, bad = {}, []
            for r in range(n):
                res_ = -Poly.atom(('y', r))
                for c in range(n):
                    for s2, v in f.I.run(f.elementAt, THIS, [Poly.const(r), Poly.const(c)], s.copy()):
                        if (r, c) in env:
                            B[r, c] = v
                            res_ = res_ + v * Poly.atom(('s', c))
                        elif v != ZERO:
                            bad.append('element (%d,%d) appears' % (r, c))
                try:
                    k = f.fp(res_)
                except ZeroDivisionError:
                    k = None
                if k != 0 and k not in zs and not combination(f.fp, res_, zero):
                    bad.append('row %d gives %s' % (r, tstr_(res_)))
            f.ob('the updated matrix satisfies the secant condition', not bad, '; '.join(bad), upd)
            ctx.count('paths of the secant update')
            f.check_solve(s, B, n, 'solving after the update gives the solution of the updated system')


def combination(fp, res, zero):
    """res vanishes wherever the forms in zero do: res = z * (res / z) with z affine in some y - substitute"""
    sub = {}
    for z in zero:
        for a in z.atoms():
            if isinstance(a, tuple) and a[0] == 'y' and not any(a in dict(m) and dict(m)[a] != 1 for m in z.t):
                from polyh import split_pow
                sp = split_pow(z, a)
                if set(sp) <= {0, 1} and sp[1].cval() is not None:
                    sub[a] = -sp.get(0, ZERO) / sp[1]
                    break
    if not sub:
        return False
    try:
        return Fprint(sub)(res) == 0
    except ZeroDivisionError:
        return False


def factorizer(ctx):
    """LUFactorizer fed with every sparsity pattern of small matrices: element values are unknown (those of a product of
    unknown triangular factors); the forms inferred for elements and solutions are compared with those of the system."""
    p = ctx.p
    if CLS not in p.classes:
        raise AnalysisError('class %s vanished' % CLS)
    top = 3 if ctx.tier == 'quick' else 4
    jobs = [(n, [x]) for n in (1, 2) for x in patterns(n)]
    ps3 = list(patterns(3))
    jobs += [(3, ps3[i::8]) for i in range(8)]
    ps4 = list(patterns(4))
    if top == 3:
        ps4 = ps4[5::61]
    jobs += [(4, ps4[i::16]) for i in range(16)]
    ctx.pmap(one_pattern, jobs)
    ctx.floor('sparsity patterns', ctx.counts.get('sparsity patterns', 0), 60)
    small = [(n, x) for n in (1, 2, 3) for x in patterns(n) if n < 3 or len(x) in (3, 4, 5, 9)]
    todo = [(a, b) for a in [(0, None)] + [x for x in small if x[0] < 3 or len(x[1]) in (3, 4, 9)] for b in small if a != b]
    if ctx.tier == 'quick':
        todo = [t for i, t in enumerate(todo) if t[0][1] is None or i % 2 == 0]
    ctx.pmap(changes, [todo[i::16] for i in range(16)])
    hs = [(n, x) for n in (1, 2) for x in patterns(n)] + [(3, x) for x in ps3]
    ctx.pmap(hart, [(n, [x]) for n, x in hs])
    ctx.assume('the matrix has a factorisation without pivoting; exact arithmetic; for the secant update some component of the step is non-zero')
