"""Texts of numbers: languages of printed numbers and of the patterns that accept them (finite automata; nothing is matched at run time)."""
try:
    import re._parser as sp
except ImportError:
    import sre_parse as sp
import re

ALPHA = '0123456789+-.eEnaifx, \0'

# what the standard library prints
INT = r'-?(0|[1-9][0-9]*)'
UNS = r'(0|[1-9][0-9]*)'
FP = r'-?([0-9]+|[0-9]+\.[0-9]+)(e[+-][0-9][0-9][0-9]?)?'


class Nfa:
    def __init__(self, rx):
        self.eps, self.tr, self.n = {}, {}, 0
        s, t = self.new(), self.new()
        self.start, self.end = s, t
        self.seq(sp.parse(rx), s, t)

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def c(self, a, cs, b):
        for x in cs:
            self.tr.setdefault((a, x), set()).add(b)

    def seq(self, items, s, t):
        cur = s
        for op, av in items:
            nx = self.new()
            self.item(str(op), av, cur, nx)
            cur = nx
        self.e(cur, t)

    def item(self, op, av, s, t):
        if op == 'LITERAL':
            self.c(s, [chr(av)], t)
        elif op == 'ANY':
            self.c(s, ALPHA, t)
        elif op == 'AT':
            self.e(s, t)
        elif op == 'IN':
            neg, cs = False, set()
            for o, v in av:
                o = str(o)
                if o == 'NEGATE':
                    neg = True
                elif o == 'LITERAL':
                    cs.add(chr(v))
                elif o == 'RANGE':
                    cs |= {x for x in ALPHA if v[0] <= ord(x) <= v[1]}
                elif o == 'CATEGORY' and 'DIGIT' in str(v) and 'NOT' not in str(v):
                    cs |= set('0123456789')
                else:
                    raise ValueError(o)
            self.c(s, set(ALPHA) - cs if neg else cs, t)
        elif op == 'SUBPATTERN':
            self.seq(av[-1], s, t)
        elif op == 'BRANCH':
            for b in av[1]:
                self.seq(b, s, t)
        elif op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av
            cur = s
            for _ in range(lo):
                nx = self.new()
                self.seq(sub, cur, nx)
                cur = nx
            if str(hi) == 'MAXREPEAT':
                nx = self.new()
                self.e(cur, nx)
                self.seq(sub, nx, nx)
                self.e(nx, t)
            else:
                self.e(cur, t)
                for _ in range(int(hi) - lo):
                    nx = self.new()
                    self.seq(sub, cur, nx)
                    cur = nx
                    self.e(cur, t)
        else:
            raise ValueError(op)

    def close(self, ss):
        out, w = set(ss), list(ss)
        while w:
            for y in self.eps.get(w.pop(), ()):
                if y not in out:
                    out.add(y); w.append(y)
        return frozenset(out)

    def step(self, ss, x):
        return self.close({y for s in ss for y in self.tr.get((s, x), ())})


def relation(lang, rx):
    """'in': every text of lang matches rx; 'out': none does; 'some'; with an example of the other kind"""
    a, b = Nfa(lang), Nfa(rx)
    s = (a.close({a.start}), b.close({b.start}))
    seen, w = {s: ''}, [s]
    yes = no = None
    while w:
        x = w.pop(0)
        if a.end in x[0]:
            if b.end in x[1]:
                yes = seen[x] if yes is None else yes
            else:
                no = seen[x] if no is None else no
        for ch in ALPHA:
            y = (a.step(x[0], ch), b.step(x[1], ch))
            if y[0] and y not in seen:
                seen[y] = seen[x] + ch
                w.append(y)
    return ('in' if no is None else 'out' if yes is None else 'some'), no


def literal(text, rx):
    return re.fullmatch(rx, text) is not None
