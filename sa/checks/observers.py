"""Observer lists: who is told, in which order, with what; what is registered and removed."""
import itertools
from entries import EntryClient, Run
from program import AnalysisError
from terms import Poly

A, B = Poly.atom(('V', 'a')), Poly.atom(('V', 'b'))
SC = 'verif_entry::ObScene'


class ObClient(EntryClient):
    dynamic_types = True

    def cxx(self, I, st, fr, node, q, ol, args):
        return None                 # the lists are analysed through their own source

    def call(self, I, st, fr, node, fid, ol, args):
        q = (node.get('q') or '')
        if q == 'verif_entry::obAnswer':
            k, n = (int(a.cval()) for a in args)
            out = []
            for v in (False, True):
                s = st.copy()
                s.auto = s.auto + ((k, n, v),)
                out.append((s, v))
            return out
        if q == 'verif_entry::obFails':
            out = []
            for v in (False, True):
                s = st.copy()
                s.auto = s.auto + (('fails', v),)
                out.append((s, v))
            return out
        return super().call(I, st, fr, node, fid, ol, args)


class Obs(Run):
    def __init__(self, p):
        super().__init__(p, ObClient())
        self.obj('s', SC)
        for s in self.sts:
            s.auto = ()
        self.n = 0

    def log(self, st, frm=0):
        """what was told, from the given call on"""
        n = self.num(st, 'ob_size', 's')
        out = []
        for i in range(frm, n):
            out.append((self.num(st, 'ob_who', 's', i), self.one(st, 'ob_a', 's', i), self.one(st, 'ob_b', 's', i)))
        return out

    def one(self, st, fn, *a):
        r = self.raw(st.copy(), fn, list(a))
        if len(r) != 1:
            raise AnalysisError('%s: %d results' % (fn, len(r)))
        return r[0][1]

    def num(self, st, fn, *a):
        v = self.one(st, fn, *a)
        c = v.cval() if isinstance(v, Poly) else int(v) if isinstance(v, bool) else None
        return -1 if c is None else int(c)


def told(who):
    return [(k, A, B) for k in who]


def history(ctx, term, ops):
    """ops: 'a' adds an observer, an integer removes that of the live ones, 'c' removes all; all are told after each"""
    p = 't' if term else ''
    r = Obs(ctx.p)
    bad = []
    live, made = [], 0           # (number, id)
    hist = ''
    for st0 in r.sts:
        cur = [(st0, ())]
    for op in ops:
        nxt = []
        if op == 'a':
            made += 1
        for st, lv in cur:
            if op == 'a':
                for s, i in r.raw(st.copy(), 'ob_%sadd' % p, ['s', made]):
                    i = int(i.cval()) if isinstance(i, Poly) and i.cval() is not None else None
                    if i is None or i in [x for _, x in lv]:
                        bad.append('%s: the identifier of a new observer is %s, which is taken' % (ops, i))
                    nxt.append((s, lv + ((made, i),)))
            elif op == 'c':
                for s, _ in r.raw(st.copy(), 'ob_%sclear' % p, ['s']):
                    nxt.append((s, ()))
            else:
                for s, _ in r.raw(st.copy(), 'ob_%sremove' % p, ['s', lv[op][1]]):
                    nxt.append((s, lv[:op] + lv[op + 1:]))
        cur = []
        for st, lv in nxt:
            e = r.one(st, 'ob_%sempty' % p, 's')
            if bool(r.num(st, 'ob_%sempty' % p, 's')) != (not lv):
                bad.append('%s: the list is said to be %s with %d observers' % (ops, 'empty' if lv else 'not empty', len(lv)))
            n = r.num(st, 'ob_size', 's')
            st = st.copy()
            st.auto = ()
            for s, v in r.raw(st, 'ob_%sfire' % p, ['s', A, B]):
                got = r.log(s, n)
                if got != told([k for k, _ in lv]):
                    bad.append('%s: %s told instead of %s' % (ops, say(got), say(told([k for k, _ in lv]))))
                if term:
                    vs = r.I.branch(s, v) if not isinstance(v, bool) else [(s, v)]
                    for s2, b in vs:
                        if b != any(x[2] for x in s.auto):
                            bad.append('%s: the answer is %s when the observers answer %s' % (ops, b, [x[2] for x in s.auto]))
                if not term or all(not x[2] for x in s.auto):
                    cur.append((s, lv))
        ctx.count('notifications', max(1, len(cur)))
    finish(ctx, r, 'history', '%s of %s' % (ops, 'answering observers' if term else 'observers'), bad)


def say(l):
    return '[%s]' % ', '.join('%s%s' % (k, '' if (a, b) == (A, B) else ' with %s, %s' % (a, b)) for k, a, b in l)


def finish(ctx, r, rule, subj, bad):
    bad = list(bad) + ['%s (%s)' % x for x in r.c.bad] + ['an assertion fails (%s)' % x for x in r.c.asserts]
    ctx.count('histories', 1)
    ctx.ob(rule, subj, not bad, 'include/ode_num_int/infra/cxx_observers.h', '; '.join(dict.fromkeys(bad))[:500])


def forward(ctx, term, n):
    """a list that forwards to another tells its observers"""
    p = 't' if term else ''
    r = Obs(ctx.p)
    bad = []
    r.do('ob_%sforward' % p, 's')
    for k in range(n):
        r.do('ob_%sadd' % p, 's', k + 1)
    fire = 'ob_tfireQ' if term else 'ob_fireP'
    for st in r.sts:
        for s, v in r.raw(st.copy(), fire, ['s', A, B]):
            got = r.log(s)
            if got != told(range(1, n + 1)):
                bad.append('%s told instead of %s' % (say(got), say(told(range(1, n + 1)))))
            if term:
                for s2, b in (r.I.branch(s, v) if not isinstance(v, bool) else [(s, v)]):
                    if b != any(x[2] for x in s.auto):
                        bad.append('the answer is %s when the observers answer %s' % (b, [x[2] for x in s.auto]))
    finish(ctx, r, 'forward', '%d %sobservers' % (n, 'answering ' if term else ''), bad)


def scope(ctx, kind, before, after):
    """an observer registered for a scope is told in it and not after it, however it is left; others stay"""
    r = Obs(ctx.p)
    bad = []
    for k in range(before):
        r.do('ob_add', 's', k + 1)
    base = list(range(1, before + 1))
    me = 10
    res = []
    r.excs = []
    for st in r.sts:
        st = st.copy(); st.auto = ()
        res += [(s, False) for s, _ in r.raw(st, 'ob_' + kind, ['s', me, A, B])]
    res += [(e[1][0], True) for e in r.excs]
    seen = set()
    for s, thrown in res:
        fails = ('fails', True) in s.auto
        if thrown != fails:
            bad.append('an exception is lost' if fails else 'an exception is thrown')
        seen.add(thrown)
        want = {'scope': told(base + [me]) * (1 if thrown else 2), 'finish': told(base + [me]) + told(base), 'move': told(base + [me]) + told(base)}[kind]
        got = r.log(s)
        if got != want:
            bad.append('%s%s told instead of %s' % (say(got), ' and an exception' if thrown else '', say(want)))
        for k in range(after):
            s = r.raw(s.copy(), 'ob_add', ['s', 20 + k])[0][0]
        n = r.num(s, 'ob_size', 's')
        for s2, _ in r.raw(s.copy(), 'ob_fire', ['s', A, B]):
            got = r.log(s2, n)
            want = told(base + [20 + k for k in range(after)])
            if got != want:
                bad.append('after the scope%s %s told instead of %s' % (' is left by an exception' if thrown else '', say(got), say(want)))
    if seen != ({False, True} if kind == 'scope' else {False}):
        bad.append('ways out of the scope: %s' % sorted(seen))
    finish(ctx, r, 'scope', '%s, %d observers before and %d after' % (kind, before, after), bad)


def histories(depth):
    """all sequences of operations"""
    def rec(ops, live, made):
        if ops:
            yield ops
        if len(ops) == depth:
            return
        if made < 4:
            yield from rec(ops + ('a',), live + 1, made + 1)
        for i in range(live):
            yield from rec(ops + (i,), live - 1, made)
        if live:
            yield from rec(ops + ('c',), 0, made)
    all_ = list(rec((), 0, 0))
    # prefixes are covered by their extensions
    pre = {o[:-1] for o in all_}
    return [o for o in all_ if o not in pre]


def one(ctx, item):
    item[0](ctx, *item[1:])


def observers(ctx):
    """Element-wise forward abstract interpretation of cxx_observers.h: observer lists, scoped registration, forwarding."""
    items = []
    for term in (False, True):
        for ops in histories(6 if not term else 5):
            items.append((history, term, ops))
        for n in range(4):
            items.append((forward, term, n))
    for kind in ('scope', 'finish', 'move'):
        for b in range(3):
            for a in range(2):
                items.append((scope, kind, b, a))
    ctx.pmap(one, items)
    ctx.floor('histories', ctx.counts.get('histories', 0), 100)
