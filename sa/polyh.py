"""Convex polyhedra over monomials (rational arithmetic, Fourier-Motzkin elimination): a relational refinement of the
interval facts the interpreter collects along a path, used to recognise combinations of conditions which cannot occur."""
from fractions import Fraction
from terms import Poly, ZERO, ONE, Iv


def clear(p, pos):
    """p divided by the greatest common monomial in the positive atoms (negative powers removed)"""
    mons = list(p.t)
    if len(mons) < 2:
        return p
    lows = None
    for m in mons:
        d = {a: e for a, e in m if a in pos}
        if lows is None:
            lows = dict(d)
        else:
            for a in set(lows) | set(d):
                lows[a] = min(lows.get(a, 0), d.get(a, 0))
    if any(m == () for m in mons):
        for a in lows:
            lows[a] = min(lows[a], 0)
    f = ONE
    for a, e in lows.items():
        if e:
            q = Poly.atom(a)
            for _ in range(abs(e)):
                f = f * (q.inv() if e > 0 else q)
    return p * f


class Cons:
    """a conjunction of constraints `poly op 0`"""

    def __init__(self, pos=(), rewrite=None):
        self.pos = set(pos)
        self.cs = []
        self.rewrite = rewrite
        for a in self.pos:
            self.add(Poly.atom(a), '>')

    def copy(self):
        c = Cons.__new__(Cons)
        c.pos = self.pos; c.cs = list(self.cs); c.rewrite = self.rewrite
        return c

    def add(self, p, op):
        if self.rewrite:
            p, op = self.rewrite(p, op)
        p = clear(p, self.pos)
        if op in ('>', '>='):
            p, op = -p, '<' if op == '>' else '<='
        self.cs.append((p, op))
        return self

    def facts(self, facts):
        for q, iv in facts.items():
            if isinstance(q, Poly) and isinstance(iv, Iv):
                if iv.lo is not None and iv.lo == iv.hi:
                    self.add(q - Poly.const(iv.lo), '==')
                    continue
                if iv.lo is not None:
                    self.add(q - Poly.const(iv.lo), '>' if iv.lo_open else '>=')
                if iv.hi is not None:
                    self.add(q - Poly.const(iv.hi), '<' if iv.hi_open else '<=')
                for v in iv.nes:
                    self.add(q - Poly.const(v), '!=')
        return self

    def with_(self, *cs):
        c = self.copy()
        for p, op in cs:
            c.add(p, op)
        return c

    def empty(self, depth=4):
        base = [(p, op) for p, op in self.cs if op != '!=']
        nes = [p for p, op in self.cs if op == '!=']
        if fm_empty(base):
            return True
        if depth:
            for i, p in enumerate(nes):
                # only those disequalities matter whose polynomial the rest can force to zero
                if fm_empty(base + [(p, '<')]) and fm_empty(base + [(-p, '<')]):
                    return True
        return False

    def implies(self, p, op):
        """every point satisfies p op 0"""
        if op == '==':
            return self.with_((p, '<')).empty() and self.with_((p, '>')).empty()
        return self.with_((p, {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op])).empty()

    def feasible(self, *cs):
        return not self.with_(*cs).empty()


def row(p, ids=None):
    if ids is None:
        return {m: Fraction(c) for m, c in p.t.items()}
    return {m if m == () else ids.setdefault(m, len(ids)): Fraction(c) for m, c in p.t.items()}


def fm_empty(cs):
    """no real point satisfies all constraints (monomials taken as independent unknowns): sound for emptiness"""
    rows = []
    eqs = []
    ids = {}
    for p, op in cs:
        r = row(p, ids)
        (eqs if op == '==' else rows).append((r, op == '<'))
    # use equations for substitution
    eqs = [r for r, _ in eqs]
    while eqs:
        e = eqs.pop()
        vs = [m for m in e if m != ()]
        if not vs:
            if e.get((), 0) != 0:
                return True
            continue
        v = vs[0]
        k = e[v]

        def sub(r):
            c = r.get(v)
            if not c:
                return r
            n = dict(r)
            for m, x in e.items():
                n[m] = n.get(m, 0) - c / k * x
            return {m: x for m, x in n.items() if x != 0}
        eqs = [sub(r) for r in eqs]
        rows = [(sub(r), s) for r, s in rows]
    return fm(rows)


def norm(r):
    vs = [abs(x) for m, x in r.items() if m != ()]
    k = max(vs) if vs else 1
    return {m: x / k for m, x in r.items()}


def fm(rows):
    while True:
        cur = {}
        for r, s in rows:
            r = {m: x for m, x in r.items() if x != 0}
            if not any(m != () for m in r):
                c = r.get((), 0)
                if c > 0 or c == 0 and s:
                    return True
                continue
            r = norm(r)
            key = frozenset((m, x) for m, x in r.items() if m != ())
            c = r.get((), Fraction(0))
            o = cur.get(key)
            if o is None or c > o[0] or c == o[0] and s:
                cur[key] = (c, s)
        rows = [(dict(list(k) + ([((), c)] if c else [])), s) for k, (c, s) in cur.items()]
        if not rows:
            return False
        # a variable with the fewest combinations
        cnt = {}
        for r, s in rows:
            for m, x in r.items():
                if m != ():
                    a = cnt.setdefault(m, [0, 0])
                    a[x > 0] += 1
        v = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - sum(cnt[m]), m if isinstance(m, int) else str(m)))
        lo = [(r, s) for r, s in rows if r.get(v, 0) < 0]
        hi = [(r, s) for r, s in rows if r.get(v, 0) > 0]
        rest = [(r, s) for r, s in rows if not r.get(v, 0)]
        if len(lo) * len(hi) > 4000:
            return False
        for a, sa in lo:
            for b, sb in hi:
                ka, kb = -a[v], b[v]
                n = {}
                for m in set(a) | set(b):
                    x = a.get(m, 0) * kb + b.get(m, 0) * ka
                    if m != v and x != 0:
                        n[m] = x
                rest.append((n, sa or sb))
        rows = rest


def inv_atoms(p):
    return sorted({a for a in p.atoms() if isinstance(a, tuple) and a and a[0] == 'inv' and isinstance(a[1], Poly)}, key=str)


def split_pow(p, u):
    """p as polynomial in atom u: {exponent: coefficient polynomial}"""
    out = {}
    for m, c in p.t.items():
        e = dict(m).get(u, 0)
        rest = tuple(x for x in m if x[0] != u)
        d = out.setdefault(e, {})
        d[rest] = d.get(rest, 0) + c
    return {e: Poly(d) for e, d in out.items()}


def divide(p, q):
    """p / q when q divides p exactly (polynomials), else None"""
    if not p.t:
        return ZERO
    lead = lambda x: max(x.t, key=lambda m: (sum(e for a, e in m), str(m)))
    lq = lead(q)
    dq = dict(lq)
    r = ZERO
    for _ in range(200):
        if not p.t:
            return r
        # a term of p divisible by the leading term of q, greatest first
        lp = lead(p)
        d = dict(lp)
        for a, e in dq.items():
            if d.get(a, 0) < e:
                return None
            d[a] = d[a] - e
        from terms import akey
        m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: akey(x[0])))
        t = Poly({m: p.t[lp] / q.t[lq]})
        r = r + t
        p = p - t * q
    return None


def cancel(p):
    """cancel inv(q) against multiples of q"""
    for u in inv_atoms(p):
        q = cancel(u[1])
        sp = split_pow(p, u)
        if set(sp) - {0, 1} or 1 not in sp:
            continue
        c = divide(sp[1], q)
        if c is not None:
            p = sp.get(0, ZERO) + c
    return p


def unfraction(p, op, sign):
    """multiply the constraint `p op 0` by the denominators occurring in it, whose signs sign(q) tells (None: unknown)"""
    p = cancel(p)
    for u in inv_atoms(p):
        q = u[1]
        sp = split_pow(p, u)
        s = sign(q)
        if s in (None, 0) or set(sp) - {0, 1}:
            continue
        p = sp.get(0, ZERO) * q + sp.get(1, ZERO)
        if s < 0:
            p = -p
    return p, op
