"""Formal h-expansion of linearly implicit (W-method) steps over trees with two kinds of vertices: right-hand side
vertices 'f' and approximate-Jacobian vertices 'A' (one child).  The oracle for Rosenbrock order conditions."""
from functools import lru_cache
from terms import Poly, ZERO, ONE, is_v
from mats import ID, is_m
from terms import tstr


class NotW(Exception):
    pass


@lru_cache(None)
def wtrees(n):
    if n == 1:
        return [('f', ())]
    out = set()

    def forests(total, limit):
        if total == 0:
            yield ()
            return
        for k in range(min(total, limit), 0, -1):
            for t in wtrees(k):
                for rest in forests(total - k, k):
                    yield tuple(sorted((t,) + rest))
    for f in set(forests(n - 1, n - 1)):
        out.add(('f', f))
    for t in wtrees(n - 1):
        out.add(('A', (t,)))
    return sorted(out)


def worder(t):
    return 1 + sum(worder(c) for c in t[1])


def pure(t):
    return t[0] == 'f' and all(pure(c) for c in t[1])


def wgamma(t):
    g = worder(t)
    for c in t[1]:
        g *= wgamma(c)
    return g


def wname(t):
    return t[0] + ('(' + ','.join(wname(c) for c in t[1]) + ')' if t[1] else '')


def lin(p):
    """[(coefficient Poly, vector atom)] of a linear form; raises NotW"""
    out = []
    for m, c in p.t.items():
        va = [(a, e) for a, e in m if is_v(a)]
        if len(va) != 1 or va[0][1] != 1:
            raise NotW('term %s is not linear in vectors' % tstr(Poly({m: c}))[:120])
        out.append((Poly({tuple(x for x in m if x != va[0]): c}), va[0][0]))
    return out


class Blocks:
    """Recognises operations written block-wise for systems whose first n2 variables have the next n2 as derivatives:
    with the approximate Jacobian [[0 I 0] [J2 J1]] the solve with I - c*J is
        bottom := (I - c*J1 - c^2*J2)^-1 (bottom + c*J2*top),   top := top + c*head(bottom)
    and the product is   top := head(bottom), bottom := J1*bottom + J2*top   (head: first n2 entries).
    norm() rewrites such vectors to ('Solve', I - c*J, r) / ('Mul', J, r) over whole vectors."""

    def __init__(self, n2, n):
        self.n2 = n2; self.n = n; self.J = None
        self.memo = {}; self.cm = {}; self.known = []

    def norm(self, p):
        r = self.memo.get(p)
        if r is None:
            r = p.map_atoms(lambda a: self.atom(a) if is_v(a) else None)
            self.memo[p] = r
        return r

    def atom(self, a):
        x = a[1]
        if isinstance(x, tuple) and x and x[0] == 'F':
            return Poly.atom(('V', ('F', x[1], self.norm(x[2]))))
        if isinstance(x, tuple) and x and x[0] == 'upd':
            return self.upd(x)
        return None

    def canon(self, p):
        """block form over blocks of irreducible whole vectors (states, right-hand sides) and local solves / products"""
        r = self.cm.get(p)
        if r is not None:
            return r
        out = ZERO
        for c, a in lin(p):
            x = a[1]
            if isinstance(x, tuple) and x and x[0] == 'blk':
                o, s = x[2], x[3]
                for c2, b in lin(x[1] if isinstance(x[1], Poly) else Poly.atom(x[1])):
                    out = out + c * c2 * self.part(b, o, s)
            elif isinstance(x, tuple) and x and x[0] in ('Solve', 'Mul'):
                out = out + c * self.local(x[0], x[1], self.canon(self.strip(x[2])))
            elif isinstance(x, tuple) and x and x[0] == 'head':
                out = out + c * Poly.atom(a)
            else:
                raise NotW('block %s is not understood' % tstr(a)[:120])
        self.cm[p] = out
        return out

    def local(self, op, m, y):
        return sum((c * Poly.atom(('V', (op, m, a))) for c, a in lin(y)), ZERO)

    def part(self, b, o, s):
        """canonical form of entries o..o+s-1 of the whole vector atom b"""
        y = b[1]
        if isinstance(y, tuple) and y and y[0] == 'upd':
            items = [(k, v) for k, v in y[2] if k[0] == 'b']
            if len(items) == len(y[2]):
                for k, v in items:
                    if k[1] == o and k[2] == s:
                        return self.canon(v[1])
                bot = [v for k, v in items if k[1] == self.n2 and k[2] == self.n - self.n2]
                if bot and o == self.n2 and s == self.n2:
                    return self.head(self.canon(bot[0][1]))
                if len(items) == 1 and (bot and o == ZERO and s == self.n2 or
                                        items[0][0][1] == ZERO and items[0][0][2] == self.n2 and o == self.n2):
                    base = y[1] if isinstance(y[1], Poly) else Poly.atom(y[1])
                    return sum((c * self.part(d, o, s) for c, d in lin(base)), ZERO)
        w = self.norm(Poly.atom(b))
        out = ZERO
        for c, d in lin(w):
            z = d[1]
            if isinstance(z, tuple) and z and z[0] in ('Solve', 'Mul') and self.J is not None:
                if o == ZERO and s == self.n2:
                    out = out + c * self.top(d)
                elif o == self.n2 and s == self.n - self.n2:
                    out = out + c * self.bot(d)
                elif o == self.n2 and s == self.n2:
                    out = out + c * self.head(self.bot(d))
                else:
                    raise NotW('unexpected block %s of %s' % (tstr((o, s))[:60], tstr(d)[:100]))
            else:
                a = Poly.atom(('V', ('blk', Poly.atom(d), o, s)))
                if o == self.n2 and s == self.n2:
                    a = Poly.atom(('V', ('head', ('V', ('blk', Poly.atom(d), self.n2, self.n - self.n2)))))
                out = out + c * a
        return out

    def tops(self, p):
        return sum((c * self.part(a, ZERO, self.n2) for c, a in lin(p)), ZERO)

    def bots(self, p):
        return sum((c * self.part(a, self.n2, self.n - self.n2) for c, a in lin(p)), ZERO)

    def bot(self, d):
        op, m, v = d[1]
        v = self.strip(v)
        j1, j2 = self.J[1][1:]
        if op == 'Mul':
            return self.local('Mul', j1, self.bots(v)) + self.local('Mul', j2, self.tops(v))
        c = -((m - Poly.atom(ID)) / Poly.atom(self.J))
        M = Poly.atom(ID) - c * Poly.atom(j1) - c * c * Poly.atom(self.unblk(j2))
        return self.local('Solve', M, self.bots(v) + c * self.local('Mul', j2, self.tops(v)))

    def top(self, d):
        op, m, v = d[1]
        v = self.strip(v)
        if op == 'Mul':
            return self.head(self.bots(v))
        c = -((m - Poly.atom(ID)) / Poly.atom(self.J))
        return self.tops(v) + c * self.head(self.bot(d))

    def head(self, p):
        """first n2 entries of a bottom block"""
        return sum((c * Poly.atom(('V', ('head', a))) for c, a in lin(p)), ZERO)

    def parts(self, m):
        """iteration matrix I - c*J1 - c^2*J2 -> c, J1, J2"""
        rest = m - Poly.atom(ID)
        cs = {}
        for mono, c in rest.t.items():
            ma = [a for a, e in mono if is_m(a)]
            if len(ma) != 1 or ma[0] == ID:
                raise NotW('iteration matrix %s is not I - c*J1 - c^2*J2' % tstr(m)[:160])
            cs[ma[0]] = cs.get(ma[0], ZERO) + Poly({tuple(x for x in mono if x[0] != ma[0]): c})
        return cs

    def rebuild(self, top, bot):
        """the whole vector (over right-hand sides, products with J and already recognised solves) with these blocks"""
        j1, j2 = self.J[1][1:]
        out = ZERO
        for k, piv, kt, kb in reversed(self.known):
            c = ZERO
            for c2, a in lin(bot):
                if a == piv:
                    c = c2 / self.coef(kb, piv)
            if c != ZERO:
                out = out + c * k; bot = bot - c * kb; top = top - c * kt
        X = Y = ZERO
        for c, a in lin(bot):
            x = a[1]
            if x[0] == 'blk' and x[2] == self.n2 and x[3] == self.n - self.n2:
                w = x[1] if isinstance(x[1], Poly) else Poly.atom(x[1])
                out = out + c * w
                top = top - c * self.tops(w)
            elif x[0] == 'Mul' and x[1] == j1:
                X = X + c * Poly.atom(x[2])
            elif x[0] == 'Mul' and x[1] == j2:
                Y = Y + c * Poly.atom(x[2])
            else:
                raise NotW('second block of a vector contains %s' % tstr(a)[:160])
        if X != ZERO or Y != ZERO:
            out = out + self.local('Mul', self.J, self.rebuild(Y, X))
            top = top - self.head(X)
        if top != ZERO:
            raise NotW('the two blocks of a vector do not belong together: first block is off by %s' % tstr(top)[:160])
        return out

    def coef(self, p, atom):
        return sum((c for c, a in lin(p) if a == atom), ZERO)

    def muls(self, p, out):
        for c, a in lin(p):
            if a[1][0] in ('Mul', 'Solve'):
                if a[1][0] == 'Mul':
                    out.add(a[1][1])
                self.muls(self.strip(a[1][2]), out)
        return out

    def upd(self, x):
        items = dict((k, v[1]) for k, v in x[2] if k[0] == 'b')
        kt, kb = ('b', ZERO, self.n2), ('b', self.n2, self.n - self.n2)
        if set(items) != {kt, kb} or len(x[2]) != 2:
            raise NotW('a vector is only partly updated')
        T, B0 = items[kt], items[kb]
        if self.J is None:
            self.find(B0)
        B = self.canon(B0)
        T = self.canon(T)
        lb = lin(B)
        j1, j2 = self.J[1][1:]
        try:
            return self.rebuild(T, B)
        except NotW:
            if not lb or not all(a[1][0] == 'Solve' for _, a in lb):
                raise
        mats = {a[1][1] for _, a in lb}
        if len(mats) != 1:
            raise NotW('one solution combines different iteration matrices')
        M = mats.pop()
        cs = self.parts(M)
        if set(cs) != {j1, self.unblk(j2)}:
            raise NotW('iteration matrix %s does not contain both Jacobian parts' % tstr(M)[:160])
        c = -cs[j1]
        if cs[self.unblk(j2)] != -(c * c):
            raise NotW('iteration matrix %s is not I - c*J1 - c^2*J2' % tstr(M)[:160])
        y = sum((k * self.strip(a[1][2]) for k, a in lb), ZERO)
        t = T - c * self.head(B)                                # the solve must be top := top + c*head(bottom)
        r = self.rebuild(t, y - c * self.local('Mul', j2, t))   # and M*bottom = bottom + c*J2*top
        res = self.local('Solve', Poly.atom(ID) - c * Poly.atom(self.J), r)
        old = {a for k in self.known for _, a in lin(k[3])}
        new = [a for _, a in lb if a not in old]
        if not new:
            raise NotW('a solve of the step has the same right-hand side as an earlier one')
        self.known.append((res, new[0], T, B))
        return res

    def find(self, B):
        """the two Jacobian parts, from the first local solve"""
        lb = lin(B)
        sol = [a for _, a in lb if a[1][0] == 'Solve']
        if not sol:
            raise NotW('vector with block contents %s is not understood' % tstr(B)[:120])
        cs = self.parts(sol[0][1][1])
        j2 = [a for a in self.muls(B, set()) if self.unblk(a) != a]
        if len(j2) != 1:
            raise NotW('the contribution of the second order variables to the right-hand side is missing')
        j1 = [a for a in cs if a != self.unblk(j2[0])]
        if len(j1) != 1 or self.unblk(j2[0]) not in cs:
            raise NotW('iteration matrix %s does not contain both Jacobian parts' % tstr(sol[0][1][1])[:160])
        self.J = ('M', ('jac', j1[0], j2[0]))

    def strip(self, y):
        return y if isinstance(y, Poly) else Poly.atom(y)

    def unblk(self, j):
        """matrix atom of a product operand: block(M, 0, 0, n - n2, n2) is the part of M acting on the first n2 variables"""
        if isinstance(j, tuple) and j[0] == 'M' and isinstance(j[1], tuple) and j[1][0] == 'block':
            m, r0, c0, nr, nc = j[1][1:]
            if r0 == ZERO and c0 == ZERO and nr == self.n - self.n2 and nc == self.n2:
                at = [a for a in m.atoms() if is_m(a)]
                if len(at) == 1 and m == Poly.atom(at[0]):
                    return at[0]
            raise NotW('unexpected block of a Jacobian part')
        return j


class Expansion:
    def __init__(self, x0, t0, h, pmax):
        self.x0 = x0; self.t0 = t0; self.h = h; self.p = pmax
        self.memo = {}
        self.A = None
        self.problems = []

    def state(self, x):
        """weights of x = x0 + sum: {tree: Poly}"""
        out = {}
        for m, c in (x - self.x0).t.items():
            va = [a for a, e in m if is_v(a)]
            if len(va) != 1:
                raise NotW('term %r is not linear in the increments' % Poly({m: c}))
            rest = Poly({tuple((a, e) for a, e in m if not is_v(a)): c})
            g, w = self.atom(va[0])
            k = rest
            for _ in range(1 + g):
                k = k / self.h
            if any(a in self.h.atoms() or a in self.t0.atoms() for a in k.atoms()):
                raise NotW('coefficient %r of an increment does not scale with the step size' % rest)
            for t, v in w.items():
                out[t] = out.get(t, ZERO) + k * v
        return out

    def atom(self, a):
        if a in self.memo:
            if self.memo[a] is None:
                raise NotW('a right-hand side of an earlier state is used: %s' % tstr(a)[:200])
            return self.memo[a]
        self.memo[a] = None
        x = a[1]
        if not isinstance(x, tuple) or not x:
            raise NotW('increment %s is not built from right-hand sides' % tstr(a)[:200])
        if x[0] == 'F':
            st = self.state(x[2])
            ct = (x[1] - self.t0) / self.h
            if (ct - st.get(('f', ()), ZERO)) != ZERO:
                self.problems.append('stage time t + (%r)*h does not match its state' % ct)
            w = {}
            for n in range(1, self.p + 1):
                for t in wtrees(n):
                    if t[0] != 'f':
                        continue
                    v = ONE
                    for c in t[1]:
                        v = v * st.get(c, ZERO)
                    if v != ZERO:
                        w[t] = v
            r = (0, w)
        elif x[0] == 'Mul':
            self.jac(x[1])
            g, w0 = self.atom(x[2])
            r = (g + 1, {('A', (t,)): v for t, v in w0.items() if worder(t) < self.p})
        elif x[0] == 'Solve':
            m = x[1]
            rest = m - Poly.atom(ID)
            if rest == ZERO:
                d = ZERO
            else:
                js = [b for b in rest.atoms() if is_m(b)]
                if len(js) != 1:
                    raise NotW('iteration matrix %s is not I - c*J' % tstr(m)[:200])
                self.jac(js[0])
                c = -(rest / Poly.atom(js[0]))
                d = c / self.h
                if any(is_m(b) or b in self.h.atoms() for b in d.atoms()):
                    raise NotW('iteration matrix %s is not I - h*d*J for the step size of the attempt' % tstr(m)[:200])
            g, w0 = self.atom(x[2])
            w = {}
            for n in range(1, self.p + 1):
                for t in wtrees(n):
                    v = w0.get(t, ZERO)
                    if t[0] == 'A':
                        v = v + d * w.get(t[1][0], ZERO)
                    if v != ZERO:
                        w[t] = v
            r = (g, w)
        else:
            raise NotW('increment %s is not built from right-hand sides' % tstr(a)[:200])
        self.memo[a] = r
        return r

    def jac(self, j):
        if isinstance(j, tuple) and j == ID:
            raise NotW('identity used as Jacobian')
        if self.A is None:
            self.A = j
        elif self.A != j:
            raise NotW('two different Jacobian matrices are used in one step')
