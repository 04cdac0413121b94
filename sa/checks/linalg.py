import itertools
from entries import Run
from polyh import Cons
from program import AnalysisError
from terms import Poly, ZERO, ONE, akey

S, W, X = (Poly.atom(('V', n)) for n in ('s', 'w', 'x'))


def sym(name, n):
    return [Poly.atom(('V', '%s%d' % (name, i))) for i in range(n)]


def fabs(v):
    v = min(v, -v, key=akey)
    if not v.t:
        return ZERO
    if len(v.t) == 1:
        (m, c), = v.t.items()
        return Poly.const(abs(c)) * Poly.atom(('app', 'fabs', Poly({m: type(c)(1)})))
    return Poly.atom(('app', 'fabs', v))


def horner(vs, w):
    r = ZERO
    for v in vs:
        r = r * w + v
    return r


def show(v):
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(show(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (k, show(x)) for k, x in sorted(v.items())) + '}'
    return str(v)[:120]


def same(st, got, want):
    """equal on the path, using its equality facts"""
    if got == want:
        return True
    if not isinstance(got, Poly) or not isinstance(want, Poly):
        return False
    c = Cons().facts(st.facts)
    d = got - want
    return c.implies(d, '<=') and c.implies(d, '>=')


# ------------------------------------------------------------------ vectors
# entry point, parameters, new values of the vectors (by name), returned value; parameters: r a b vectors, i j k indices,
# n length; None: outside the domain
def blocks(v, i, n):
    return v[i:i + n]


def put(v, i, w):
    return v[:i] + w + v[i + len(w):]


add = lambda a, b: [x + y for x, y in zip(a, b)]
sub = lambda a, b: [x - y for x, y in zip(a, b)]
scl = lambda a, s: [x * s for x in a]
dot = lambda a, b: sum((x * y for x, y in zip(a, b)), ZERO)
T = Poly.const

ANY, SAME = 'any', 'same'
VECTORS = [
    # name, arguments, sizes of r relative to a, precondition, {vector: value}, result
    ('v_get', 'a i', None, lambda e: e['i'] < e['na'], {}, lambda e: e['a'][e['i']]),
    ('v_at', 'a i', None, lambda e: e['i'] < e['na'], {}, lambda e: e['a'][e['i']]),
    ('v_getm', 'a i', None, lambda e: e['i'] < e['na'], {}, lambda e: e['a'][e['i']]),
    ('v_put', 'r i x', SAME, lambda e: e['i'] < e['nr'], {'r': lambda e: put(e['r'], e['i'], [X])}, None),
    ('v_putat', 'r i x', SAME, lambda e: e['i'] < e['nr'], {'r': lambda e: put(e['r'], e['i'], [X])}, None),
    ('v_size', 'a', None, None, {}, lambda e: T(e['na'])),
    ('v_empty', 'a', None, None, {}, lambda e: e['na'] == 0),
    ('v_assign', 'r a', ANY, None, {'r': lambda e: e['a']}, None),
    ('v_self', 'r', SAME, None, {}, None),
    ('v_copy', 'r a', ANY, None, {'r': lambda e: e['a']}, None),
    ('v_clone', 'r a', ANY, None, {'r': lambda e: e['a']}, None),
    ('v_cloneIndep', 'r a s', ANY, None, {'r': lambda e: e['a'], 'a': lambda e: scl(e['a'], S)}, None),
    ('v_data', 'r a', ANY, None, {'r': lambda e: e['a']}, None),
    ('v_make', 'r n', SAME, None, {'r': lambda e: [ZERO] * e['n']}, None),
    ('v_resize', 'r n', SAME, None, {'r': lambda e: (e['r'] + [ZERO] * e['n'])[:e['n']]}, None),
    ('v_clear', 'r', SAME, None, {'r': lambda e: [ZERO] * e['nr']}, None),
    ('v_swap', 'r a', ANY, None, {'r': lambda e: e['a'], 'a': lambda e: e['r']}, None),
    ('v_addTo', 'r a', SAME, None, {'r': lambda e: add(e['r'], e['a'])}, None),
    ('v_subFrom', 'r a', SAME, None, {'r': lambda e: sub(e['r'], e['a'])}, None),
    ('v_mulBy', 'r s', SAME, None, {'r': lambda e: scl(e['r'], S)}, None),
    ('v_add', 'r a b', ANY, None, {'r': lambda e: add(e['a'], e['b'])}, None),
    ('v_sub', 'r a b', ANY, None, {'r': lambda e: sub(e['a'], e['b'])}, None),
    ('v_scaledTo', 'r a s', ANY, None, {'r': lambda e: scl(e['a'], S)}, None),
    ('v_scaledCopy', 'r a s', ANY, None, {'r': lambda e: scl(e['a'], S)}, None),
    ('v_scaledAdd', 'r a s', SAME, None, {'r': lambda e: add(e['r'], scl(e['a'], S))}, None),
    ('v_scaledSub', 'r a s', SAME, None, {'r': lambda e: sub(e['r'], scl(e['a'], S))}, None),
    ('v_scaledPlus', 'r a b s', ANY, None, {'r': lambda e: add(scl(e['a'], S), e['b'])}, None),
    ('v_selfScaled', 'r s', SAME, None, {'r': lambda e: scl(e['r'], S)}, None),
    ('v_selfAdd', 'r s', SAME, None, {'r': lambda e: add(e['r'], scl(e['r'], S))}, None),
    ('v_selfSub', 'r', SAME, None, {'r': lambda e: [ZERO] * e['nr']}, None),
    ('v_scaledGet', 'a s i', None, lambda e: e['i'] < e['na'], {}, lambda e: e['a'][e['i']] * S),
    ('v_scaledAt', 'a s i', None, lambda e: e['i'] < e['na'], {}, lambda e: e['a'][e['i']] * S),
    ('v_scaledSize', 'a s', None, None, {}, lambda e: T(e['na'])),
    ('v_scaledIter', 'a s w', None, None, {}, lambda e: horner(scl(e['a'], S), W)),
    ('v_dot', 'a b', None, None, {}, lambda e: dot(e['a'], e['b'])),
    ('v_dotScaled', 'a b s', None, None, {}, lambda e: dot(e['a'], scl(e['b'], S))),
    ('v_one', 'a', None, None, {}, lambda e: sum((fabs(v) for v in e['a']), ZERO)),
    ('v_sqr', 'a', None, None, {}, lambda e: dot(e['a'], e['a'])),
    ('v_eucl', 'a', None, None, {}, lambda e: Poly.atom(('app', 'sqrt', dot(e['a'], e['a'])))),
    ('v_inf', 'a', None, None, {}, lambda e: ('max', [fabs(v) for v in e['a']])),
    ('v_iter', 'a w', None, None, {}, lambda e: horner(e['a'], W)),
    ('v_iterSet', 'r s', SAME, None, {'r': lambda e: scl(e['r'], S)}, None),
    ('v_memberwise1', 'r a', ANY, None, {'r': lambda e: [T(3) * v + ONE for v in e['a']]}, None),
    ('v_memberwise2', 'r a b', ANY, None, {'r': lambda e: [v - T(2) * w for v, w in zip(e['a'], e['b'])]}, None),
    ('v_fabs', 'r a', ANY, None, {'r': lambda e: [fabs(v) for v in e['a']]}, None),
    ('v_sqrt', 'r a', ANY, None, {'r': lambda e: [Poly.atom(('app', 'sqrt', v)) for v in e['a']]}, None),
    ('v_max', 'r a b', ANY, None, {'r': lambda e: [('max', [v, w]) for v, w in zip(e['a'], e['b'])]}, None),
    # blocks
    ('b_read', 'r a i n', ANY, lambda e: e['i'] + e['n'] <= e['na'], {'r': lambda e: blocks(e['a'], e['i'], e['n'])}, None),
    ('b_readc', 'r a i n', ANY, lambda e: e['i'] + e['n'] <= e['na'], {'r': lambda e: blocks(e['a'], e['i'], e['n'])}, None),
    ('b_copy', 'r a i n', ANY, lambda e: e['i'] + e['n'] <= e['na'], {'r': lambda e: blocks(e['a'], e['i'], e['n'])}, None),
    ('b_write', 'r i n a', ANY, lambda e: e['i'] + e['n'] <= e['nr'] and e['n'] == e['na'], {'r': lambda e: put(e['r'], e['i'], e['a'])}, None),
    ('b_writeb', 'r i n a j', ANY, lambda e: e['i'] + e['n'] <= e['nr'] and e['j'] + e['n'] <= e['na'],
     {'r': lambda e: put(e['r'], e['i'], blocks(e['a'], e['j'], e['n']))}, None),
    ('b_writes', 'r i n a s', ANY, lambda e: e['i'] + e['n'] <= e['nr'] and e['n'] == e['na'],
     {'r': lambda e: put(e['r'], e['i'], add(blocks(e['r'], e['i'], e['n']), scl(e['a'], S)))}, None),
    ('b_add', 'r i n a', ANY, lambda e: e['i'] + e['n'] <= e['nr'] and e['n'] == e['na'],
     {'r': lambda e: put(e['r'], e['i'], add(blocks(e['r'], e['i'], e['n']), e['a']))}, None),
    ('b_sub', 'r i n a', ANY, lambda e: e['i'] + e['n'] <= e['nr'] and e['n'] == e['na'],
     {'r': lambda e: put(e['r'], e['i'], sub(blocks(e['r'], e['i'], e['n']), e['a']))}, None),
    ('b_mul', 'r i n s', SAME, lambda e: e['i'] + e['n'] <= e['nr'], {'r': lambda e: put(e['r'], e['i'], scl(blocks(e['r'], e['i'], e['n']), S))}, None),
    ('b_clear', 'r i n', SAME, lambda e: e['i'] + e['n'] <= e['nr'], {'r': lambda e: put(e['r'], e['i'], [ZERO] * e['n'])}, None),
    ('b_put', 'r i n k x', SAME, lambda e: e['i'] + e['n'] <= e['nr'] and e['k'] < e['n'], {'r': lambda e: put(e['r'], e['i'] + e['k'], [X])}, None),
    ('b_putat', 'r i n k x', SAME, lambda e: e['i'] + e['n'] <= e['nr'] and e['k'] < e['n'], {'r': lambda e: put(e['r'], e['i'] + e['k'], [X])}, None),
    ('b_get', 'a i n k', None, lambda e: e['i'] + e['n'] <= e['na'] and e['k'] < e['n'], {}, lambda e: e['a'][e['i'] + e['k']]),
    ('b_at', 'a i n k', None, lambda e: e['i'] + e['n'] <= e['na'] and e['k'] < e['n'], {}, lambda e: e['a'][e['i'] + e['k']]),
    ('b_size', 'a i n', None, lambda e: e['i'] + e['n'] <= e['na'], {}, lambda e: T(e['n'])),
    ('b_iter', 'a i n w', None, lambda e: e['i'] + e['n'] <= e['na'], {}, lambda e: horner(blocks(e['a'], e['i'], e['n']), W)),
    ('b_dot', 'a i n b', 'ab', lambda e: e['i'] + e['n'] <= e['na'] and e['n'] == e['nb'], {}, lambda e: dot(blocks(e['a'], e['i'], e['n']), e['b'])),
    ('b_sqr', 'a i n', None, lambda e: e['i'] + e['n'] <= e['na'], {}, lambda e: dot(*[blocks(e['a'], e['i'], e['n'])] * 2)),
    ('b_plus', 'r a i n b', 'ab', lambda e: e['i'] + e['n'] <= e['na'] and e['n'] == e['nb'], {'r': lambda e: add(blocks(e['a'], e['i'], e['n']), e['b'])}, None),
    ('b_minus', 'r a i n b', 'ab', lambda e: e['i'] + e['n'] <= e['na'] and e['n'] == e['nb'], {'r': lambda e: sub(blocks(e['a'], e['i'], e['n']), e['b'])}, None),
    ('b_scaled', 'r a i n s', ANY, lambda e: e['i'] + e['n'] <= e['na'], {'r': lambda e: scl(blocks(e['a'], e['i'], e['n']), S)}, None),
    ('b_nested', 'r a i n j k', SAME, lambda e: e['i'] + e['n'] <= e['na'] and e['j'] + e['k'] <= e['n'],
     {'r': lambda e: blocks(blocks(e['a'], e['i'], e['n']), e['j'], e['k'])}, None),
    ('b_self', 'r i j n', SAME, lambda e: e['i'] + e['n'] <= e['nr'] and e['j'] + e['n'] <= e['nr'] and e['i'] <= e['j'],
     {'r': lambda e: put(e['r'], e['i'], blocks(e['r'], e['j'], e['n']))}, None),
]


def matches(st, got, want):
    if isinstance(want, tuple) and want[0] == 'max':
        if not isinstance(got, Poly):
            return False
        c = Cons([next(iter(v.t))[0][0] for v in want[1] if v.t and 'fabs' in str(v)]).facts(st.facts)
        for v in want[1]:
            if not c.implies(v - got, '<='):
                return False
        if not want[1]:
            return got == ZERO
        # attained: it is one of them, or the smallest value all of them can have
        return any(same(st, got, v) for v in want[1]) or (got == ZERO and all(c.implies(v, '<=') for v in want[1]))
    if isinstance(want, bool) or isinstance(got, bool):
        return got == want
    return same(st, got, want)


def vector_case(p, name, argn, env, new, ret):
    """(obligations, problems) of one entry point on one environment"""
    r = Run(p)
    for v in ('r', 'a', 'b'):
        if v in argn:
            r.vec(v, env[v])
    sts, base = r.sts, len(r.I.exc)
    r.c.bad = []; r.c.asserts = []
    args = [S if a == 's' else W if a == 'w' else X if a == 'x' else a if a in 'rab' else env[a] for a in argn]
    bad = []
    n = 0
    for s in sts:
        for s2, v in r.raw(s, name, args):
            n += 1
            if ret is not None:
                w = ret(env)
                if isinstance(w, bool) and not isinstance(v, bool):
                    fs = {b for _, b in r.I.branch(s2, v)}
                    v = fs.pop() if len(fs) == 1 else v
                if not matches(s2, v, w):
                    bad.append('the result is %s instead of %s' % (show(v), show(w)))
            for o in ('r', 'a', 'b'):
                if o in argn:
                    want = new[o](env) if o in new else env[o]
                    for s3, got in r.vval(s2, o):
                        if got is None or len(got) != len(want) or not all(matches(s3, g, w) for g, w in zip(got, want)):
                            bad.append('%s becomes %s instead of %s' % (o, show(got), show(want)))
    for what, where in r.c.bad:
        bad.append('%s (%s)' % (what, where))
    for w in r.c.asserts:
        bad.append('an assertion fails for valid arguments (%s)' % w)
    if len(r.I.exc) > base:
        bad.append('an exception is thrown')
    if not n and not bad:
        bad.append('no result')
    return n, bad


def envs(argn, rel, pre, deep):
    mx = 5 if deep else 4
    lim = 4000 if deep else 400
    names = [a for a in argn if a in 'ijkn']
    out = []
    for na in range(mx + 1):
        for nr in ((range(0, mx + 1) if deep else sorted({0, na, mx})) if rel in (ANY, 'ab') else [na]):
            for nb in (range(mx + 1) if rel == 'ab' else [na]):
                for idx in itertools.product(range(mx + 1), repeat=len(names)):
                    e = dict(zip(names, idx), na=na, nr=nr, nb=nb, a=sym('a', na), r=sym('r', nr), b=sym('b', nb))
                    if pre is None or pre(e):
                        out.append(e)
    if len(out) > lim:
        step = len(out) / lim
        out = [out[int(i * step)] for i in range(lim)]
    return out


def vectors(ctx):
    """Element-wise forward abstract interpretation of every public operation of vectors, blocks and scaled views, for
    every combination of small sizes, with arbitrary element values."""
    ctx.floor('vector operations', len(VECTORS), 60)
    deep = ctx.tier == 'thorough'

    def one(c, t):
        name, argn, rel, pre, new, ret = t
        argn = argn.split()
        f = entry(c.p, name)
        where = anchor(c.p, f)
        for e in envs(argn, rel, pre, deep):
            n, bad = vector_case(c.p, name, argn, e, new, ret)
            c.count('vector paths', n)
            dims = ', '.join('%s=%s' % (k, v if isinstance(v, int) else len(v)) for k, v in sorted(e.items()) if k in argn)
            c.ob('result of ' + source(f), dims, not bad, where, '; '.join(bad[:3]))
    ctx.pmap(one, VECTORS)


def entry(p, name):
    from entries import entry_fns
    return entry_fns(p)[name]


PLAIN = ('operator=', 'size', 'count', 'begin', 'end', 'at', 'first', 'swap')


def callees(p, f, seen=None):
    """functions of the repository an entry point calls (directly or through the generic readers)"""
    seen = set() if seen is None else seen
    out = []

    def walk(n):
        if isinstance(n, dict):
            for k in ('fn', 'ctor'):
                g = p.fns.get(n.get(k)) if isinstance(n.get(k), str) else None
                if g is not None and g.id not in seen:
                    seen.add(g.id)
                    if 'verif_entry' in g.tmpl:
                        out.extend(callees(p, g, seen))
                    elif g.rloc().startswith('include/'):
                        out.append(g)
            for v in n.values():
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    walk(f.body)
    return out


def anchor(p, f):
    gs = callees(p, f)
    gs.sort(key=lambda g: (g.name in PLAIN, g.kind == 'ctor' if hasattr(g, 'kind') else 0))
    return gs[0].rloc() if gs else f.rloc()


def source(f):
    """the use of the public API an entry point consists of"""
    try:
        line = open(f.file).read().splitlines()[int(f.loc.rsplit(':', 1)[1]) - 1]
        return line[line.index('{') + 1:line.rindex('}')].strip()
    except (OSError, ValueError, IndexError):
        return f.name


# ------------------------------------------------------------------ matrices
# a matrix: (rows, columns, {index: value}); the explicitly stored elements are part of the model
def tr(m):
    return m[1], m[0], {(c, r): v for (r, c), v in m[2].items()}


def sm(m, s):
    return m[0], m[1], {k: v * s for k, v in m[2].items()}


def blk(m, i, j, k, l):
    return k, l, {(r - i, c - j): v for (r, c), v in m[2].items() if i <= r < i + k and j <= c < j + l}


def madd(a, b, f=ONE):
    d = dict(a[2])
    for k, v in b[2].items():
        d[k] = d.get(k, ZERO) + v * f
    return a[0], a[1], d


def mmul(a, b):
    d = {}
    for (r, k), v in a[2].items():
        for (k2, c), w in b[2].items():
            if k == k2:
                d[r, c] = d.get((r, c), ZERO) + v * w
    return a[0], b[1], d


def mvec(m, v):
    out = [ZERO] * m[0]
    for (r, c), x in m[2].items():
        out[r] = out[r] + x * v[c]
    return out


def mput(m, r, c, x):
    return m[0], m[1], dict(m[2]) | {(r, c): x}


def mdrop(m, f):
    return m[0], m[1], {k: v for k, v in m[2].items() if not f(*k)}


def minto(m, b, i, j):
    """m with the elements of b stored from (i, j)"""
    return m[0], m[1], dict(m[2]) | {(r + i, c + j): v for (r, c), v in b[2].items()}


def ident(n, s=ONE):
    return n, n, {(i, i): s for i in range(n)}


def inblk(e):
    return lambda r, c: e['i'] <= r < e['i'] + e['k'] and e['j'] <= c < e['j'] + e['l']


def has_blk(e, m='m'):
    return e['i'] + e['k'] <= e[m][0] and e['j'] + e['l'] <= e[m][1]


B = lambda e, m='m': blk(e[m], e['i'], e['j'], e['k'], e['l'])
eqs = lambda a, b: a[:2] == b[:2]
ins = lambda a, b: set(a[2]) <= set(b[2])
THROW = 'throw'

# name, arguments, precondition, {object: new value}, result.  Arguments: r m a b map matrices, f g sorted-array matrices,
# o output matrix, u v vectors, i j k l p q numbers, s x arbitrary elements
MATRICES = [
    ('m_make', 'r p q', None, {'r': lambda e: (e['p'], e['q'], {})}, None),
    ('m_put', 'm p q x', lambda e: e['p'] < e['m'][0] and e['q'] < e['m'][1], {'m': lambda e: mput(e['m'], e['p'], e['q'], X)}, None),
    ('m_putI', 'm p q x', lambda e: e['p'] < e['m'][0] and e['q'] < e['m'][1], {'m': lambda e: mput(e['m'], e['p'], e['q'], X)}, None),
    ('f_put', 'f p q x', lambda e: e['p'] < e['f'][0] and e['q'] < e['f'][1],
     {'f': lambda e: mput(e['f'], e['p'], e['q'], X) if (e['p'], e['q']) in e['f'][2] else THROW}, None),
    ('f_putI', 'f p q x', lambda e: e['p'] < e['f'][0] and e['q'] < e['f'][1],
     {'f': lambda e: mput(e['f'], e['p'], e['q'], X) if (e['p'], e['q']) in e['f'][2] else THROW}, None),
    ('f_assign', 'f m', None, {'f': lambda e: e['m']}, None),
    ('f_assignT', 'f m', None, {'f': lambda e: tr(e['m'])}, None),
    ('f_assignF', 'f g', None, {'f': lambda e: e['g']}, None),
    ('f_copyData', 'f m', None, {'f': lambda e: e['m']}, None),
    ('f_copyF', 'f g', None, {'f': lambda e: e['g']}, None),
    ('m_assign', 'r m', None, {'r': lambda e: e['m']}, None),
    ('m_copy', 'r m', None, {'r': lambda e: e['m']}, None),
    ('m_assignF', 'r f', None, {'r': lambda e: e['f']}, None),
    ('m_copyF', 'r f', None, {'r': lambda e: e['f']}, None),
    ('m_clone', 'r m', None, {'r': lambda e: e['m']}, None),
    ('f_clone', 'f g', None, {'f': lambda e: e['g']}, None),
    ('f_convert', 'f m', None, {'f': lambda e: e['m']}, None),
    ('m_assignT', 'r m', None, {'r': lambda e: tr(e['m'])}, None),
    ('m_copyT', 'r m', None, {'r': lambda e: tr(e['m'])}, None),
    ('m_assignS', 'r m s', None, {'r': lambda e: sm(e['m'], S)}, None),
    ('m_copyS', 'r m s', None, {'r': lambda e: sm(e['m'], S)}, None),
    ('m_assignB', 'r m i j k l', has_blk, {'r': B}, None),
    ('m_copyB', 'r m i j k l', has_blk, {'r': B}, None),
    ('m_selfT', 'm', None, {'m': lambda e: tr(e['m'])}, None),
    ('m_selfS', 'm s', None, {'m': lambda e: sm(e['m'], S)}, None),
    ('m_selfB', 'm i j k l', has_blk, {'m': B}, None),
    ('m_self', 'm', None, {}, None),
    ('f_self', 'f', None, {}, None),
    ('m_zero', 'm', None, {'m': lambda e: sm(e['m'], ZERO)}, None),
    ('f_zero', 'f', None, {'f': lambda e: sm(e['f'], ZERO)}, None),
    ('m_clear', 'm', None, {'m': lambda e: mdrop(e['m'], lambda r, c: True)}, None),
    ('f_clear', 'f', None, {'f': lambda e: mdrop(e['f'], lambda r, c: True)}, None),
    ('m_remove', 'm p q', lambda e: e['p'] < e['m'][0] and e['q'] < e['m'][1],
     {'m': lambda e: mdrop(e['m'], lambda r, c: (r, c) == (e['p'], e['q']))}, None),
    ('m_resize', 'm p q', None, {'m': lambda e: (e['p'], e['q'], {(r, c): v for (r, c), v in e['m'][2].items() if r < e['p'] and c < e['q']})}, None),
    ('m_resizeFromData', 'm', None, {'m': lambda e: (max([r + 1 for r, c in e['m'][2]] or [0]), max([c + 1 for r, c in e['m'][2]] or [0]), e['m'][2])}, None),
    ('m_sid', 'm s', lambda e: e['m'][0] == e['m'][1], {'m': lambda e: madd(e['m'], ident(e['m'][0], S))}, None),
    ('f_sid', 'f s', lambda e: e['f'][0] == e['f'][1] and ins(ident(e['f'][0]), e['f']), {'f': lambda e: madd(e['f'], ident(e['f'][0], S))}, None),
    ('m_id', 'm', lambda e: e['m'][0] == e['m'][1], {'m': lambda e: madd(e['m'], ident(e['m'][0]))}, None),
    ('m_newId', 'r p', None, {'r': lambda e: ident(e['p'])}, None),
    ('m_newSid', 'r p s', None, {'r': lambda e: ident(e['p'], S)}, None),
    ('m_add', 'r m', lambda e: eqs(e['r'], e['m']), {'r': lambda e: madd(e['r'], e['m'])}, None),
    ('m_sub', 'r m', lambda e: eqs(e['r'], e['m']), {'r': lambda e: madd(e['r'], e['m'], -ONE)}, None),
    ('m_addF', 'r f', lambda e: eqs(e['r'], e['f']), {'r': lambda e: madd(e['r'], e['f'])}, None),
    ('m_addS', 'r m s', lambda e: eqs(e['r'], e['m']), {'r': lambda e: madd(e['r'], e['m'], S)}, None),
    ('m_subT', 'r m', lambda e: eqs(e['r'], tr(e['m'])), {'r': lambda e: madd(e['r'], tr(e['m']), -ONE)}, None),
    ('m_addB', 'r m i j k l', lambda e: has_blk(e) and e['r'][:2] == (e['k'], e['l']), {'r': lambda e: madd(e['r'], B(e))}, None),
    ('f_subS', 'f g s', lambda e: eqs(e['f'], e['g']) and ins(e['g'], e['f']), {'f': lambda e: madd(e['f'], e['g'], -S)}, None),
    ('f_addM', 'f m', lambda e: eqs(e['f'], e['m']) and ins(e['m'], e['f']), {'f': lambda e: madd(e['f'], e['m'])}, None),
    ('m_mul', 'r a b', lambda e: e['a'][1] == e['b'][0], {'r': lambda e: mmul(e['a'], e['b'])}, None),
    ('m_mulT', 'r a b', lambda e: e['a'][1] == e['b'][1], {'r': lambda e: mmul(e['a'], tr(e['b']))}, None),
    ('m_mulF', 'r a f', lambda e: e['a'][1] == e['f'][0], {'r': lambda e: mmul(e['a'], e['f'])}, None),
    ('m_mulBy', 'r b', lambda e: e['r'][0] == e['r'][1] and eqs(e['r'], e['b']), {'r': lambda e: mmul(e['r'], e['b'])}, None),
    ('m_vec', 'u m v', lambda e: len(e['v']) == e['m'][1], {'u': lambda e: mvec(e['m'], e['v'])}, None),
    ('f_vec', 'u f v', lambda e: len(e['v']) == e['f'][1], {'u': lambda e: mvec(e['f'], e['v'])}, None),
    ('t_vec', 'u m v', lambda e: len(e['v']) == e['m'][0], {'u': lambda e: mvec(tr(e['m']), e['v'])}, None),
    ('s_vec', 'u m s v', lambda e: len(e['v']) == e['m'][1], {'u': lambda e: mvec(sm(e['m'], S), e['v'])}, None),
    ('bl_vec', 'u m i j k l v', lambda e: has_blk(e) and len(e['v']) == e['l'], {'u': lambda e: mvec(B(e), e['v'])}, None),
    ('blf_vec', 'u f i j k l v', lambda e: has_blk(e, 'f') and len(e['v']) == e['l'], {'u': lambda e: mvec(B(e, 'f'), e['v'])}, None),
    ('vec_m', 'u v m', lambda e: len(e['v']) == e['m'][0], {'u': lambda e: mvec(tr(e['m']), e['v'])}, None),
    ('vec_f', 'u v f', lambda e: len(e['v']) == e['f'][0], {'u': lambda e: mvec(tr(e['f']), e['v'])}, None),
    ('m_inf', 'm', None, {}, lambda e: ('max', [fabs(v) for v in e['m'][2].values()])),
    ('m_one', 'm', None, {}, lambda e: sum((fabs(v) for v in e['m'][2].values()), ZERO)),
    ('m_sqr', 'm', None, {}, lambda e: sum((v * v for v in e['m'][2].values()), ZERO)),
    ('m_eucl', 'm', None, {}, lambda e: Poly.atom(('app', 'sqrt', sum((v * v for v in e['m'][2].values()), ZERO)))),
    # writing through views
    ('mb_put', 'm i j k l p q x', lambda e: has_blk(e) and e['p'] < e['k'] and e['q'] < e['l'],
     {'m': lambda e: mput(e['m'], e['i'] + e['p'], e['j'] + e['q'], X)}, None),
    ('mb_remove', 'm i j k l p q', lambda e: has_blk(e) and e['p'] < e['k'] and e['q'] < e['l'],
     {'m': lambda e: mdrop(e['m'], lambda r, c: (r, c) == (e['i'] + e['p'], e['j'] + e['q']))}, None),
    ('mb_clear', 'm i j k l', has_blk, {'m': lambda e: mdrop(e['m'], inblk(e))}, None),
    ('mb_scale', 'm i j k l s', has_blk, {'m': lambda e: (e['m'][0], e['m'][1], {k: v * S if inblk(e)(*k) else v for k, v in e['m'][2].items()})}, None),
    ('mb_assign', 'm i j k l a', lambda e: has_blk(e) and e['a'][:2] == (e['k'], e['l']),
     {'m': lambda e: minto(mdrop(e['m'], inblk(e)), e['a'], e['i'], e['j'])}, None),
    ('mb_add', 'm i j k l a', lambda e: has_blk(e) and e['a'][:2] == (e['k'], e['l']),
     {'m': lambda e: minto(e['m'], madd(B(e), e['a']), e['i'], e['j'])}, None),
    ('mt_put', 'm p q x', lambda e: e['p'] < e['m'][1] and e['q'] < e['m'][0], {'m': lambda e: mput(e['m'], e['q'], e['p'], X)}, None),
    ('mt_remove', 'm p q', lambda e: e['p'] < e['m'][1] and e['q'] < e['m'][0], {'m': lambda e: mdrop(e['m'], lambda r, c: (c, r) == (e['p'], e['q']))}, None),
    ('mt_clear', 'm', None, {'m': lambda e: mdrop(e['m'], lambda r, c: True)}, None),
    ('mt_scale', 'm s', None, {'m': lambda e: sm(e['m'], S)}, None),
    ('mt_add', 'm a', lambda e: eqs(tr(e['m']), e['a']), {'m': lambda e: madd(e['m'], tr(e['a']))}, None),
]

# read access to every kind of matrix: prefix, arguments, precondition, the matrix it stands for
KINDS = [
    ('mm', 'm', None, lambda e: e['m']), ('ff', 'f', None, lambda e: e['f']),
    ('mb', 'm i j k l', has_blk, B), ('mt', 'm', None, lambda e: tr(e['m'])), ('ms', 'm s', None, lambda e: sm(e['m'], S)),
    ('fb', 'f i j k l', lambda e: has_blk(e, 'f'), lambda e: B(e, 'f')), ('ft', 'f', None, lambda e: tr(e['f'])),
    ('fs', 'f s', None, lambda e: sm(e['f'], S)),
    ('mbt', 'm i j k l', has_blk, lambda e: tr(B(e))), ('mbs', 'm i j k l s', has_blk, lambda e: sm(B(e), S)),
]
inside = lambda v: lambda e: e['p'] < v(e)[0] and e['q'] < v(e)[1]
el = lambda v: lambda e: v(e)[2].get((e['p'], e['q']), ZERO)
has = lambda v: lambda e: (e['p'], e['q']) in v(e)[2]
both = lambda f, g: g if f is None else lambda e: f(e) and g(e)
for _k, _a, _pre, _v in KINDS:
    for _m, _f in (('get', el), ('getI', el), ('idx', el), ('has', has), ('chk', el), ('chkHas', has)):
        MATRICES.append(('%s_%s' % (_k, _m), _a + ' p q', both(_pre, inside(_v)), {}, _f(_v)))
    MATRICES += [('%s_rows' % _k, _a, _pre, {}, lambda e, v=_v: T(v(e)[0])), ('%s_cols' % _k, _a, _pre, {}, lambda e, v=_v: T(v(e)[1])),
                 ('%s_count' % _k, _a, _pre, {}, lambda e, v=_v: T(len(v(e)[2]))), ('%s_empty' % _k, _a, _pre, {}, lambda e, v=_v: not v(e)[2]),
                 ('%s_all' % _k, _a + ' o', _pre, {'o': lambda e, v=_v: v(e)}, None)]
    if 't' not in _k:
        MATRICES.append(('%s_order' % _k, _a, _pre, {}, lambda e, v=_v: T(len(v(e)[2]))))
for _k, _a, _pre, _v in KINDS:
    if _k in ('mm', 'mb', 'ms'):
        MATRICES.append(('%s_row' % _k, _a + ' p o', both(_pre, lambda e, v=_v: e['p'] < v(e)[0]),
                         {'o': lambda e, v=_v: mdrop(v(e), lambda r, c, e=e: r != e['p'])}, None))

FULL2 = [(0, 0), (0, 1), (1, 0), (1, 1)]


def patterns(r, c, deep):
    ix = [(i, j) for i in range(r) for j in range(c)]
    n = len(ix)
    if n <= 4 or (deep and n <= 6):
        return [[ix[i] for i in range(n) if b >> i & 1] for b in range(1 << n)]
    out = [[], ix, [k for k in ix if k[0] == k[1]], [k for k in ix if k[0] != k[1]], [k for k in ix if k[0] == r - 1],
           [k for k in ix if k[1] == c - 1], [k for k in ix if sum(k) % 2], [ix[0], ix[-1]], [k for k in ix if k[0] <= k[1]]]
    res = []
    for x in out:
        if x not in res:
            res.append(x)
    return res


def pick(xs, n):
    if len(xs) <= n:
        return xs
    return [xs[int(i * len(xs) / n)] for i in range(n)]


def menvs(t, deep):
    """argument combinations of one operation"""
    name, argn, pre = t[0], t[1].split(), t[2]
    mats = [a for a in argn if a in 'rmabfgo']
    shapes = [(2, 2), (2, 3), (3, 2), (3, 3)] + ([(1, 1), (1, 3), (3, 1)] if len(mats) == 1 or deep else [])
    target = [a for a in mats if a in ('r', 'o', 'f') and a in t[3] and name not in ('m_add', 'm_sub', 'm_addF', 'm_addS', 'm_subT', 'm_addB', 'm_mulBy', 'f_subS', 'f_addM', 'f_sid')]
    ints = [a for a in argn if a in 'ijklpq']
    vecs = [a for a in argn if a in 'uv']
    dst = [(2, 2, [(0, 1), (1, 1)]), (3, 3, [(2, 2)]), (0, 0, [])]
    choices = []
    for a in mats:
        if a in target:
            choices.append(dst)
        elif len(mats) - len(target) > 1:
            choices.append([(r, c, q) for r, c in shapes for q in (patterns(r, c, False) if r * c <= 4 else pick(patterns(r, c, False), 3))])
        else:
            choices.append([(r, c, q) for r, c in shapes for q in patterns(r, c, deep)])
    for a in ints:
        choices.append(list(range(4)))
    for a in vecs:
        choices.append([2] if a == 'u' else [1, 2, 3])
    names = mats + ints + vecs

    def build(combo):
        e = {}
        for a, c in zip(names, combo):
            if a in mats:
                e[a] = (c[0], c[1], {k: Poly.atom(('V', '%s%d%d' % ((a,) + k))) for k in c[2]})
            elif a in vecs:
                e[a] = sym(a, c)
            else:
                e[a] = c
        return e
    lim = 1500 if deep else 50
    tot = 1
    for c in choices:
        tot *= len(c)
    # a deterministic sample that spreads over all choices
    out, seen = [], 0
    step = 1
    if tot > 400000:
        step = tot // 400000 + 1
        while step % 2 == 0 or step % 3 == 0:
            step += 1
    valid = []
    for i in range(0, tot, step):
        x, combo = i, []
        for c in choices:
            combo.append(c[x % len(c)]); x //= len(c)
        cheap = build_cheap(names, mats, vecs, combo)
        if pre is None or pre(cheap):
            valid.append(combo)
    valid = [valid[(i * 7919) % len(valid)] for i in range(min(lim, len(valid)))] if len(valid) > lim else valid
    return [build(c) for c in valid]


def build_cheap(names, mats, vecs, combo):
    e = {}
    for a, c in zip(names, combo):
        e[a] = (c[0], c[1], dict.fromkeys(c[2], ZERO)) if a in mats else [ZERO] * c if a in vecs else c
    return e


LOOSE = ('m_mul', 'm_mulT', 'm_mulF', 'm_mulBy')


def mat_same(st, got, want, loose):
    if got is None or got[:2] != want[:2]:
        return False
    if not loose and set(got[2]) != set(want[2]):
        return False
    return all(matches(st, got[2].get(k, ZERO), want[2].get(k, ZERO)) for k in set(got[2]) | set(want[2]))


def showm(m):
    return 'unknown' if m is None else '%dx%d %s' % (m[0], m[1], show(m[2]))


def matrix_case(p, t, e):
    name, argn, pre, new, ret = t
    argn = argn.split()
    r = Run(p)
    for a in argn:
        if a in 'rmabo':
            r.mat(a, *e[a]) if a in e else r.mat(a, 2, 2, {})
        elif a in 'fg':
            r.fmat(a, *e[a])
        elif a in 'uv':
            r.vec(a, e[a])
    if r.c.bad or r.c.asserts or r.I.exc or len(r.sts) != 1:
        return 1, ['the operands could not be built: %s' % ((r.c.bad + r.c.asserts)[:1] or 'an exception')]
    args = [S if a == 's' else X if a == 'x' else a if a in 'rmabofguv' else e[a] for a in argn]
    want = {a: (new[a](e) if a in new else e[a]) for a in argn if a in 'rmabofguv' and (a in e or a in new)}
    throws = THROW in [w for w in want.values() if isinstance(w, str)]
    bad, n = [], 0
    for s in list(r.sts):
        for s2, v in r.raw(s, name, args):
            n += 1
            if throws:
                bad.append('no exception is thrown although the element does not exist')
                continue
            if ret is not None:
                w = ret(e)
                if isinstance(w, bool) and not isinstance(v, bool):
                    fs = {b for _, b in r.I.branch(s2, v)}
                    v = fs.pop() if len(fs) == 1 else v
                if not matches(s2, v, w):
                    bad.append('the result is %s instead of %s' % (show(v), show(w)))
            for a, w in want.items():
                if a in 'uv':
                    for s3, g in r.vval(s2, a):
                        if g is None or len(g) != len(w) or not all(matches(s3, x, y) for x, y in zip(g, w)):
                            bad.append('%s becomes %s instead of %s' % (a, show(g), show(w)))
                else:
                    for s3, g in r.mval(s2, a, 'ff' if a in 'fg' else 'mm'):
                        if not mat_same(s3, g, w, name in LOOSE):
                            bad.append('%s becomes %s instead of %s' % (a, showm(g), showm(w)))
    for what, where in r.c.bad:
        bad.append('%s (%s)' % (what, where))
    for w in r.c.asserts:
        bad.append('an assertion fails for valid arguments (%s)' % w)
    if r.I.exc and not throws:
        bad.append('an exception is thrown')
    if not n and not bad and not throws:
        bad.append('no result')
    if throws and not r.I.exc and not bad:
        bad.append('no exception is thrown although the element does not exist')
    return n, bad


def matrices(ctx):
    """Element-wise forward abstract interpretation of every public operation of sparse matrices, both storages and all views,
    for a spread of small shapes and sparsity patterns, with arbitrary element values."""
    ctx.floor('matrix operations', len(MATRICES), 180)
    deep = ctx.tier == 'thorough'

    def one(c, t):
        f = entry(c.p, t[0])
        where = anchor(c.p, f)
        for e in menvs(t, deep):
            n, bad = matrix_case(c.p, t, e)
            c.count('matrix paths', n)
            dims = ', '.join('%s=%s' % (k, v if isinstance(v, int) else len(v) if isinstance(v, list) else '%dx%d{%s}' % (
                v[0], v[1], ' '.join('%d,%d' % i for i in sorted(v[2])))) for k, v in sorted(e.items()))
            c.ob('result of ' + source(f), dims, not bad, where, '; '.join(bad[:3]))
    ctx.pmap(one, MATRICES)
