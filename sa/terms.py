"""Term domain: Laurent polynomials over opaque atoms (linear forms for scalars and vectors) and an
interval domain over them.  Everything is hashable and immutable."""
from fractions import Fraction


class Poly:
    """Sum of coeff * monomial; a monomial is a sorted tuple of (atom, exponent).
    Vector-valued quantities are the polynomials whose monomials contain one ('V', x) atom."""
    __slots__ = ('t', '_h', '_k')
    _tab = {}

    def __new__(cls, t):        # t: dict mono -> Fraction, no zero coefficients; interned
        k = frozenset(t.items())
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.t = t; o._h = hash(k); o._k = k
            cls._tab[k] = o
        return o

    def __reduce__(self):
        return (Poly, (self.t,))

    @staticmethod
    def const(c):
        c = c if isinstance(c, Fraction) else Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        """constant value or None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    def inv(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Poly({tuple((a, -e) for a, e in m): 1 / c})
        if not self.t:
            return Poly.atom(('inv', self))
        # normalise by the leading coefficient
        lm = min(self.t, key=mono_key)
        c = self.t[lm]
        n = Poly({m: x / c for m, x in self.t.items()})
        return Poly({((('inv', n), 1),): 1 / c})

    def __truediv__(self, o):
        if o.t == self.t and self.t:
            return Poly.const(1)
        return self * o.inv()

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    def scale(self, c):
        return self * Poly.const(c)

    def map_atoms(self, f):
        """substitute atoms: f(atom) -> Poly or None"""
        r = Poly.const(0)
        for m, c in self.t.items():
            t = Poly.const(c)
            for a, e in m:
                s = f(a)
                if s is None:
                    t = t * Poly({((a, e),): Fraction(1)})
                elif e > 0:
                    for _ in range(e):
                        t = t * s
                else:
                    si = s.inv()
                    for _ in range(-e):
                        t = t * si
            r = r + t
        return r

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        if _depth[0] > 3:
            return '(..%d terms..)' % len(self.t)
        for m in sorted(self.t, key=mono_key)[:12]:
            c = self.t[m]
            f = []
            if c != 1 or not m:
                f.append(str(c) if c.denominator < 10000 else repr(float(c)))
            for a, e in m:
                f.append(tstr(a) + ('^%d' % e if e != 1 else ''))
            out.append('*'.join(f))
        if len(self.t) > 12:
            out.append('..%d more terms' % (len(self.t) - 12))
        return ' + '.join(out)


_akeys = {}
_depth = [0]


def akey(a):
    k = _akeys.get(a)
    if k is None:
        k = len(_akeys)     # order of first appearance: deterministic, and cheap for deeply nested terms
        _akeys[a] = k
    return k


def mono_key(m):
    return (len(m), [(akey(a), e) for a, e in m])


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda x: akey(x[0])))


ZERO = Poly.const(0)
ONE = Poly.const(1)


def is_v(a):
    return isinstance(a, tuple) and a and a[0] == 'V'


def locstr(loc):
    out = []
    for c in loc:
        if not isinstance(c, tuple):
            out.append(str(c)); continue
        k = c[0]
        if k == 'f':
            out.append('.' + c[2])
        elif k == 'i':
            out.append('[%s]' % tstr(c[1]))
        elif k == 'P':
            out.append('(*%s)' % tstr(c[1]))
        elif k == 'L':
            out.append(str(c[3]) if len(c) > 3 else 'local%s' % (c[2],))
        elif k == 'R':
            out.append(str(c[1]))
        elif k == 'G':
            out.append(c[1])
        elif k == 'kv':
            out.append('{%s}' % tstr(c[1]))
        elif k == 'b':
            out.append('<%s:+%s>' % (tstr(c[1]), tstr(c[2])))
        else:
            out.append('<' + ','.join(tstr(x) for x in c) + '>')
    return ''.join(out)


def tstr(t):
    if isinstance(t, Poly):
        _depth[0] += 1
        try:
            return '(%r)' % t if len(t.t) > 1 else repr(t)
        finally:
            _depth[0] -= 1
    if isinstance(t, tuple):
        if not t:
            return '()'
        k = t[0]
        if k == 'init' and len(t) == 2:
            return locstr(t[1])
        if k == 'V' and len(t) == 2:
            return tstr(t[1])
        if k == 'ref':
            return '&' + locstr(t[1])
        if k == 'sym':
            return tstr(t[1])
        if k == 'at':
            return '%s[%s]' % (tstr(t[1]), tstr(t[2]))
        if k == 'app':
            n = str(t[1])
            n = n.split('(')[0].split('::')[-1]
            return n + '(' + ','.join(tstr(x) for x in t[2:]) + ')'
        if isinstance(k, tuple):
            return locstr(t)
        return '%s(%s)' % (k, ','.join(tstr(x) for x in t[1:]))
    return str(t)


# ------------------------------------------------------------------ facts: intervals over constant-free forms
INF = None


class Iv:
    """Set of reals (interval minus finitely many points), plus possibly NaN."""
    __slots__ = ('lo', 'lo_open', 'hi', 'hi_open', 'nes', 'nan')

    def __init__(self, lo=None, lo_open=False, hi=None, hi_open=False, nes=frozenset(), nan=False):
        self.lo = lo; self.lo_open = lo_open; self.hi = hi; self.hi_open = hi_open; self.nes = nes; self.nan = nan

    def key(self):
        return (self.lo, self.lo_open, self.hi, self.hi_open, self.nes, self.nan)

    def __eq__(self, o):
        return isinstance(o, Iv) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '%s%s,%s%s%s%s' % ('(' if self.lo_open or self.lo is None else '[', self.lo if self.lo is not None else '-inf',
                                  self.hi if self.hi is not None else 'inf', ')' if self.hi_open or self.hi is None else ']',
                                  '\\{%s}' % ','.join(map(str, sorted(self.nes))) if self.nes else '', '|nan' if self.nan else '')

    def empty_real(self):
        if self.lo is not None and self.hi is not None:
            if self.lo > self.hi:
                return True
            if self.lo == self.hi and (self.lo_open or self.hi_open or self.lo in self.nes):
                return True
        return False

    def meet(self, rel, v, neg):
        """constrain by (x rel v) [neg: its negation, true for NaN]; rel in < <= ==.  None if empty."""
        r = Iv(self.lo, self.lo_open, self.hi, self.hi_open, self.nes, self.nan and neg)
        if not neg:
            if rel == '<':
                r._hi(v, True)
            elif rel == '<=':
                r._hi(v, False)
            elif rel == '>':
                r._lo(v, True)
            elif rel == '>=':
                r._lo(v, False)
            else:
                r._hi(v, False); r._lo(v, False)
        else:
            if rel == '<':
                r._lo(v, False)
            elif rel == '<=':
                r._lo(v, True)
            elif rel == '>':
                r._hi(v, False)
            elif rel == '>=':
                r._hi(v, True)
            else:
                r.nes = r.nes | {v}
                if r.lo == v and not r.lo_open:
                    r.lo_open = True
                if r.hi == v and not r.hi_open:
                    r.hi_open = True
        if r.empty_real():
            if r.nan:
                return Iv(Fraction(1), True, Fraction(0), True, frozenset(), True)
            return None
        # drop irrelevant points
        if r.nes:
            r.nes = frozenset(p for p in r.nes if r.contains_ignoring(p))
        return r

    def contains_ignoring(self, p):
        if self.lo is not None and (p < self.lo or (p == self.lo and self.lo_open)):
            return False
        if self.hi is not None and (p > self.hi or (p == self.hi and self.hi_open)):
            return False
        return True

    def contains0(self):
        return self.contains_ignoring(0) and 0 not in self.nes

    def _lo(self, v, op):
        if self.lo is None or v > self.lo or (v == self.lo and op):
            self.lo = v; self.lo_open = op or (v == self.lo and self.lo_open)

    def _hi(self, v, op):
        if self.hi is None or v < self.hi or (v == self.hi and op):
            self.hi = v; self.hi_open = op or (v == self.hi and self.hi_open)

    def hull(self, o):
        lo = hi = None; lo_open = hi_open = False
        if self.lo is not None and o.lo is not None:
            if self.lo < o.lo: lo, lo_open = self.lo, self.lo_open
            elif o.lo < self.lo: lo, lo_open = o.lo, o.lo_open
            else: lo, lo_open = self.lo, self.lo_open and o.lo_open
        if self.hi is not None and o.hi is not None:
            if self.hi > o.hi: hi, hi_open = self.hi, self.hi_open
            elif o.hi > self.hi: hi, hi_open = o.hi, o.hi_open
            else: hi, hi_open = self.hi, self.hi_open and o.hi_open
        nes = set()
        for p in self.nes | o.nes:
            if (p in self.nes or not self.contains_ignoring(p)) and (p in o.nes or not o.contains_ignoring(p)):
                nes.add(p)
        return Iv(lo, lo_open, hi, hi_open, frozenset(nes), self.nan or o.nan)


def split_form(p):
    """p = c + k*q with q constant-free, leading coefficient 1.  Returns (c, k, q) (q None if constant)."""
    c = p.t.get((), Fraction(0))
    rest = {m: x for m, x in p.t.items() if m}
    if not rest:
        return c, None, None
    lm = min(rest, key=mono_key)
    k = rest[lm]
    return c, k, Poly({m: x / k for m, x in rest.items()})


FLIP = {'<': '>', '<=': '>=', '==': '=='}


def subst(x, mp, memo=None):
    """deep simultaneous substitution of atoms by polynomials inside a Poly / term"""
    if memo is None:
        memo = {}
    if isinstance(x, Poly):
        r = memo.get(x)
        if r is None:
            def f(a):
                if a in mp:
                    return mp[a]
                b = subst(a, mp, memo)
                return None if b == a else Poly.atom(b)
            r = memo[x] = x.map_atoms(f)
        return r
    if isinstance(x, tuple):
        r = memo.get(x)
        if r is None:
            r = memo[x] = tuple(subst(y, mp, memo) if isinstance(y, (tuple, Poly)) else y for y in x)
        return r
    return x
