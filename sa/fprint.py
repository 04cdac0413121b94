"""Value numbering of rational functions: every opaque atom is given a pseudo-random element of a prime field (derived
from its text, hence the same in every run), and a form gets the number it evaluates to there.  Equal rational functions
have equal numbers; different ones collide with a probability of about degree / 2^61 ("random interpretation")."""
import hashlib
from fractions import Fraction
from terms import Poly, tstr

P = (1 << 61) - 1


class Fprint:
    def __init__(self, subs=None):
        self.memo = {}
        self.subs = subs or {}      # atom -> Poly

    def atom(self, a):
        v = self.memo.get(a)
        if v is None:
            if a in self.subs:
                v = self(self.subs[a])
            elif isinstance(a, tuple) and a and a[0] == 'vn':
                v = a[1]
            elif isinstance(a, tuple) and len(a) == 3 and a[0] == 'app' and a[1] in ('sqrt', 'fabs') and isinstance(a[2], Poly):
                # squares play the part of the positive numbers (P = 3 mod 4): |x| is the one of x, -x that is a square, and
                # sqrt is multiplicative
                x = self(a[2])
                h = pow(x, (P - 1) // 2, P)
                v = x * h % P if a[1] == 'fabs' else pow(x, (P + 1) // 4, P)
            elif isinstance(a, tuple) and a and a[0] == 'inv' and isinstance(a[1], Poly):
                x = self(a[1])
                if x == 0:
                    raise ZeroDivisionError
                v = pow(x, P - 2, P)
            else:
                v = int.from_bytes(hashlib.sha256(self.text(a).encode()).digest()[:8], 'big') % P or 1
            self.memo[a] = v
        return v

    def text(self, a):
        if isinstance(a, Poly):
            return 'p%d' % self(a)
        if isinstance(a, tuple):
            return '(' + ','.join(self.text(x) for x in a) + ')'
        return repr(a)

    def __call__(self, p):
        v = self.memo.get(p)
        if v is None:
            v = 0
            for m, c in p.t.items():
                c = Fraction(c)
                t = c.numerator % P * pow(c.denominator % P, P - 2, P) % P
                for a, e in m:
                    x = self.atom(a)
                    t = t * (pow(x, e, P) if e > 0 else pow(pow(x, P - 2, P), -e, P)) % P
                v = (v + t) % P
            self.memo[p] = v
        return v

    def same(self, p, q):
        try:
            return self(p) == self(q)
        except ZeroDivisionError:
            return False
