"""Abstract model of the sparse-matrix and LU public API: a matrix is a linear form over matrix atoms."""
from scen import *
from models import rng, range_value, write_range
import models, absint
from terms import akey

MAT = ('f', 'mat', '#value')
DIM = ('f', 'mat', '#dim')
LUM = ('f', 'lu', '#matrix')
LUMAP = ('lat', 'lu')
TOP = ('top',)
SM = N + 'sparse::SparseMatrixTemplate'
ID = ('M', 'I')


def is_m(a):
    """matrix atom: a named matrix or the content of a matrix joined over paths"""
    return isinstance(a, tuple) and bool(a) and (a[0] == 'M' or (a[0] in ('phi', 'join', 'alias') and _mentions(a)))


def _mentions(a):
    return any(x == MAT or (isinstance(x, tuple) and _mentions(x)) for x in a)


def mat_of(I, st, loc):
    v = st.store.get(loc + (MAT,))
    if v is not None:
        return v
    b = I.base_of(st, loc)
    if b[0] == 'fresh':
        return ZERO
    return Poly.atom(('M', ('init', b[1] if b[0] == 'at0' else loc)))


def dim_of(I, st, loc):
    v = st.store.get(loc + (DIM,))
    if v is not None:
        return v
    return (Poly.atom(('size', (loc, 'rows'))), Poly.atom(('size', (loc, 'cols'))))


def apply_lin(name, mat, x):
    """linear extension of vector atom a -> (name, mat, a)"""
    out = ZERO
    for m, c in x.t.items():
        va = [a for a, e in m if is_v(a)]
        rest = Poly({tuple((a, e) for a, e in m if not is_v(a)): c})
        if len(va) != 1:
            return Poly.atom(('V', (name, mat, x)))
        out = out + rest * Poly.atom(('V', (name, mat, va[0])))
    return out


def mat_mul(mat, x):
    """sum over matrix atoms: coefficient * (Mul, atom, x)"""
    out = ZERO
    for m, c in mat.t.items():
        ma = [a for a, e in m if is_m(a)]
        rest = Poly({tuple((a, e) for a, e in m if not is_m(a)): c})
        if len(ma) != 1:
            return Poly.atom(('V', ('Mul', mat, x)))
        out = out + rest * (x if ma[0] == ID else apply_lin('Mul', ma[0], x))
    return out


def template(m, key):
    """m as a function of key: ((matrix atom, constant, power), ...), or ('raw', key, m)"""
    if not isinstance(key, Poly):
        return ('raw', key, m)
    out = {}
    pw = [Poly.const(1), key, key * key, key * key * key]
    by = {}
    for mono, c in m.t.items():
        ma = [a for a, e in mono if is_m(a)]
        if len(ma) != 1:
            return ('raw', key, m)
        by.setdefault(ma[0], {})[tuple((a, e) for a, e in mono if a != ma[0])] = c
    for a, t in by.items():
        co = Poly(t)
        for n, k in enumerate(pw):
            if not k.t:
                continue
            x = next(iter(k.t.items()))
            if x[0] in co.t and co == k.scale(co.t[x[0]] / x[1]):
                out[a] = (co.t[x[0]] / x[1], n)
                break
        else:
            return ('raw', key, m)
    return tuple(sorted(out.items(), key=akey))


def instantiate(t, key):
    if t and t[0] == 'raw':
        return t[2] if t[1] == key else None
    out = ZERO
    for a, (c, n) in t:
        x = Poly.atom(a).scale(c)
        for _ in range(n):
            x = x * key
        out = out + x
    return out


def element_wise(fr, loc):
    if len(loc) != 1 or loc[0][0] != 'L' or fr is None or fr.fn is None:
        return False
    def var(o):
        while o and o.get('k') == 'cast':
            o = o.get('e')
        return o.get('id') if o and o.get('k') == 'var' else None
    return any(x.get('k') == 'call' and x.get('n') == 'at' and var(x.get('o')) == loc[0][2] for x in walk(fr.fn.body))


class MatClient(SolverClient):
    """adds sparse matrices and LU factorisations"""

    rewrite_eq = True

    def __init__(self, *a, **k):
        SolverClient.__init__(self, *a, **k)
        self.filled = {}

    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        if n['k'] == 'ctor':
            q = (n.get('ct') or '') + '::ctor'
        if q.startswith(N + 'sparse::') or q.startswith(N + 'LUFactorizer'):
            r = self.mat(I, st, fr, n, q, ol, args)
            if r is not None:
                return r
        if q.startswith('std::map::') and ol is not None and 'LUFactorizer' in (n.get('o', {}).get('t') or ''):
            r = self.lumap(I, st, fr, n, q, ol, args)
            if r is not None:
                return r
        return SolverClient.vcall(self, I, st, fr, n, fid, ol, args)

    # A map of factorisations is described by the set of its content templates: what is stored under key K, as a
    # linear form over matrix atoms whose coefficients are constants times powers of K (an element of a join lattice).
    def lat_join(self, I, loc, a, b):
        if loc[-1] == LUMAP:
            return TOP if a in (None, TOP) or b in (None, TOP) or len(a | b) > 4 else a | b
        if loc in self.filled:
            return a if a == b else self.filled[loc]
        return a if a == b else None

    def is_lat(self, loc):
        return loc in self.filled or absint.is_lat(loc)

    def lat_default(self, I, st, loc):
        if loc in self.filled:
            return ZERO
        return frozenset() if I.base_of(st, loc[:-1])[0] == 'fresh' else None

    def get_lu(self, I, st, loc):
        last = loc[-1]
        if isinstance(last, tuple) and last[0] == 'kv':
            k = loc[:-1] + (LUMAP,)
            v = st.store[k] if k in st.store else self.lat_default(I, st, k)
            ms = {instantiate(t, last[1]) for t in v} if v not in (None, TOP) else ()
            return ms.pop() if len(ms) == 1 else None
        return st.store.get(loc + (LUM,))

    def set_lu(self, I, st, loc, m):
        last = loc[-1]
        if isinstance(last, tuple) and last[0] == 'kv':
            k = loc[:-1] + (LUMAP,)
            v = st.store[k] if k in st.store else self.lat_default(I, st, k)
            if v not in (None, TOP):
                st.store[k] = v | {template(m, last[1])}
            return
        I.drop(st, loc)
        st.store[loc + BASE] = ('fresh',)
        st.store[loc + (LUM,)] = m

    def lumap(self, I, st, fr, n, q, ol, args):
        nm = q.rsplit('::', 1)[1]
        k = ol + (LUMAP,)
        v = st.store[k] if k in st.store else self.lat_default(I, st, k)
        if nm == 'clear':
            I.drop(st, ol)
            st.store[ol + BASE] = ('fresh',)
            st.store[k] = frozenset()
            return [(st, None)]
        if nm in ('find', 'count'):
            key = models.key_of(I, st, fr, n, args)
            hit = ('t', ('haskey', I.fresh(st, ('hk', I.uid(n)))))
            out = []
            for s, b in ([(st, False)] if v == frozenset() else I.branch(st, hit)):
                if nm == 'count':
                    out.append((s, ONE if b else ZERO))
                else:
                    out.append((s, ('mit', ol, key, True) if b else ('mit', ol, 'END')))
            return out
        if nm in ('operator[]', 'at'):
            return [(st, ('ref', ol + (('kv', models.key_of(I, st, fr, n, args)),)))]
        if nm in ('insert', 'emplace') and len(args) in (1, 2):
            if len(args) == 1:
                l = self.loc_of(args[0])
                sub = {x[len(l)][2]: x[:len(l) + 1] for x in I.subtree(st, l) if len(x) > len(l) and isinstance(x[len(l)], tuple) and x[len(l)][0] == 'f'}
                if 'first' not in sub or 'second' not in sub:
                    return None
                key = st.store.get(sub['first'])
                src = sub['second']
            else:
                key, src = models.key_of(I, st, fr, n, args), self.loc_of(args[1])
            m = self.get_lu(I, st, src) if src else None
            if m is None:
                m = Poly.atom(('M', ('lu', src)))
            self.set_lu(I, st, ol + (('kv', key),), m)
            loc = I.temp(fr, n)
            I.drop(st, loc)
            st.store[loc + BASE] = ('fresh',)
            cls = strip(n.get('t'))
            st.store[loc + (('f', cls, 'first'),)] = ('mit', ol, key, True)
            st.store[loc + (('f', cls, 'second'),)] = True if v == frozenset() else ('t', ('inserted', I.fresh(st, ('ins', I.uid(n)))))
            return [(st, ('agg', loc))]
        return None

    def setm(self, I, st, loc, v, d=None):
        I.drop(st, loc)
        st.store[loc + BASE] = ('fresh',)
        st.store[loc + (MAT,)] = v
        if d:
            st.store[loc + (DIM,)] = d

    def val(self, I, st, a, t='double'):
        if isinstance(a, tuple) and a and a[0] == 'ref':
            return I.read(st, a[1], t)
        return a

    def loc_of(self, a):
        return a[1] if isinstance(a, tuple) and a and a[0] in ('ref', 'agg') else None

    def mat(self, I, st, fr, n, q, ol, args):
        nm = q.rsplit('::', 1)[1]
        if q.startswith(N + 'LUFactorizer'):
            if nm == 'ctor' or nm in ('setMatrix', 'setMatrixFast'):
                if not args:
                    st.store[ol + BASE] = ('fresh',)
                    return [(st, None)]
                l = self.loc_of(args[0])
                m = self.get_lu(I, st, l)       # copy of a factoriser
                self.set_lu(I, st, ol, mat_of(I, st, l) if m is None else m)
                return [(st, None)]
            if nm == 'operator=':
                m = self.get_lu(I, st, self.loc_of(args[0]))
                self.set_lu(I, st, ol, Poly.atom(('M', ('lu', self.loc_of(args[0])))) if m is None else m)
                return [(st, ('ref', ol))]
            if nm == 'solve':
                m = self.get_lu(I, st, ol)
                if m is None:
                    m = Poly.atom(('M', ('lu', ol)))
                p = args[0]
                if not (isinstance(p, tuple) and p and p[0] == 'ref'):
                    return [(st, None)]
                l = p[1]
                c, start = (l[:-1], l[-1][1]) if isinstance(l[-1], tuple) and l[-1][0] == 'i' else (l, ZERO)
                size = I.vsize(st, c, VT) - start
                x = range_value(I, st, fr, n, c, start, size)
                write_range(I, st, fr, n, c, start, size, ('vec', apply_lin('Solve', m, x[1]), size))
                return [(st, None)]
            if n.get('rr') or kind(n.get('t')) == 'agg':
                return None
            if kind(n.get('t')) == 'void':
                return [(st, None)]
            return None
        if nm == 'ctor':
            if not (n.get('ct') or '').endswith('SparseMatrixTemplate'):
                return None
            if len(args) == 2 and all(isinstance(self.val(I, st, a, 'unsigned int'), Poly) for a in args):
                self.setm(I, st, ol, ZERO, tuple(self.val(I, st, a, 'unsigned int') for a in args))
                if element_wise(fr, ol):
                    # a local matrix filled element by element is named once, whatever elements it receives
                    self.filled[ol + (MAT,)] = Poly.atom(('M', ('elements', ol[-1], I.fresh(st, ('mat', ol[-1])))))
            elif len(args) == 1:
                l = self.loc_of(args[0])
                self.setm(I, st, ol, mat_of(I, st, l), dim_of(I, st, l))
            elif not args:
                self.setm(I, st, ol, ZERO)
            else:
                return None
            return [(st, None)]
        if not q.startswith(SM) and not q.startswith(N + 'sparse::SparseMatrixData') and not q.startswith(N + 'sparse::SparseMatrixFastData'):
            return None
        if ol is None:
            return None
        m = mat_of(I, st, ol)
        d = dim_of(I, st, ol)
        if nm in ('operator=', 'assign'):
            l = self.loc_of(args[0])
            self.setm(I, st, ol, mat_of(I, st, l), dim_of(I, st, l))
            return [(st, ('ref', ol))]
        if nm in ('operator+=', 'operator-='):
            v = mat_of(I, st, self.loc_of(args[0]))
            self.setm(I, st, ol, m + v if nm == 'operator+=' else m - v, d)
            return [(st, ('ref', ol))]
        if nm == 'operator*=' and not self.loc_of(args[0]):
            self.setm(I, st, ol, m * self.val(I, st, args[0]), d)
            return [(st, ('ref', ol))]
        if nm in ('makeZero', 'clear'):
            self.setm(I, st, ol, ZERO, d)
            return [(st, None)]
        if nm == 'addIdentity':
            self.setm(I, st, ol, m + Poly.atom(ID), d)
            return [(st, None)]
        if nm == 'addScaledIdentity':
            self.setm(I, st, ol, m + Poly.atom(ID) * self.val(I, st, args[0]), d)
            return [(st, None)]
        if nm == 'scaled':
            loc = I.temp(fr, n)
            self.setm(I, st, loc, m * self.val(I, st, args[0]), d)
            return [(st, ('agg', loc))]
        if nm == 'block':
            loc = I.temp(fr, n)
            a = [self.val(I, st, x, 'unsigned int') for x in args]
            if a[2] == ZERO or a[3] == ZERO:
                v = ZERO
            elif a[0] == ZERO and a[1] == ZERO and a[2] == d[0] and a[3] == d[1]:
                v = m
            elif m == ZERO:
                v = ZERO
            else:
                v = Poly.atom(('M', ('block', m) + tuple(a)))
            self.setm(I, st, loc, v, (a[2], a[3]))
            return [(st, ('agg', loc))]
        if nm == 'mulVectRight':
            src, dst = args
            rs, rd = rng(I, src, src), rng(I, dst, dst)
            if rs is None or rd is None:
                return None
            x = range_value(I, st, fr, n, rs[0], rs[1], d[1])
            write_range(I, st, fr, n, rd[0], rd[1], d[0], ('vec', mat_mul(m, x[1]), d[0]))
            return [(st, None)]
        if nm == 'at':
            self.on_element(I, st, fr, n, ol, args)
            loc = I.temp(fr, n, 'el')
            if ol + (MAT,) in self.filled:
                st.store[ol + (MAT,)] = self.filled[ol + (MAT,)]
            else:
                st.store[ol + (MAT,)] = Poly.atom(('M', ('elements', ol[-1], I.fresh(st, ('mat', ol[-1])))))
            return [(st, ('ref', loc))]
        return None

    def on_element(self, I, st, fr, n, ol, args):
        pass
