"""Element-wise mode of the interpreter: containers of known size with known keys are tracked exactly (std::vector, std::map,
std::set, std::pair, std::list), and the vector algebra of the repository is analysed through its own source instead of being
modelled."""
from fractions import Fraction
import absint, models
from absint import (MODELS, kind, strip, mk, SIZE, BASE, EL, DYN, zero_of, hashable, vec_elem_type, _is_enum, neg, wrap)
from models import aval, argt, vsz
from program import AnalysisError
from terms import Poly, ZERO, ONE

XM = {}
KEYS = ('f', 'std', '#keys')
PAIR = 'std::pair'
SETM = ('f', 'std', '#isset')


def on():
    if not absint.EXACT:
        absint.EXACT = __import__('exact')
        absint._kind.clear()


def off():
    if absint.EXACT:
        absint.EXACT = None
        absint._kind.clear()


def xmodel(*names):
    def d(f):
        for n in names:
            XM[n] = f
        return f
    return d


def skips(q):
    return q.startswith(('ctm::math::Vector', 'ctm::math::vectorMemberwise'))


def targs(t):
    """template arguments of a type"""
    t = strip(t)
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in t[i + 1:t.rindex('>')]:
        if ch == '<' or ch == '(':
            d += 1
        elif ch == '>' or ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def fld(loc, nm):
    return loc + (('f', PAIR, nm),)


def is_pair(t):
    return strip(t).startswith('std::pair<')


def cont_of(t):
    t = strip(t)
    for k, n in (('std::vector<', 'vector'), ('std::map<', 'map'), ('std::set<', 'set'), ('std::list<', 'list'), ('std::__cxx11::list<', 'list')):
        if t.startswith(k):
            return n
    return None


def default_init(I, st, loc, t, fr=None, node=None):
    """value-initialise an object of type t at loc (in place)"""
    I.drop(st, loc)
    if is_pair(t):
        a = targs(t)
        st.store[loc + BASE] = ('fresh',)
        default_init(I, st, fld(loc, 'first'), a[0])
        default_init(I, st, fld(loc, 'second'), a[1])
        return
    c = cont_of(t)
    if c:
        empty(st, loc, c)
        return
    k = kind(t)
    if k == 'agg' and not _is_enum(t):
        st.store[loc + BASE] = ('fresh',)
        cls = strip(t)
        r = I.p.classes.get(cls)
        if r:
            st.store[loc + DYN] = cls
            cs = [I.p.fns[m['id']] for m in r['methods'] if m['ctor'] and m['id'] in I.p.fns and not I.p.fns[m['id']].params]
            if cs:
                res = I.invoke(st, fr, node or {'k': 'call', 'l': 0, 'id': 0}, cs[0], loc, [])
                if len(res) == 1:
                    st.store = res[0][0].store; st.facts = res[0][0].facts; st.cnt = res[0][0].cnt
        return
    st.store[loc] = zero_of(t)


def empty(st, loc, c):
    st.store[loc + BASE] = ('fresh',)
    if c in ('map', 'set'):
        st.store[loc + (KEYS,)] = ('keys', ())
        if c == 'set':
            st.store[loc + (SETM,)] = True
    else:
        st.store[loc + (SIZE,)] = ZERO


def ckey(I, st, v, t=None):
    """the concrete value of a key (None: not known)"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Poly):
        c = v.cval()
        return None if c is None else Fraction(c)
    if isinstance(v, tuple) and v:
        if v[0] == 'str' and isinstance(v[1], str):
            return v[1]
        if v[0] == 'agg':
            l = v[1]
            a, b = (part(I, st, l, nm) for nm in ('first', 'second'))
            a, b = ckey(I, st, a), ckey(I, st, b)
            return None if a is None or b is None else (a, b)
    return None


def part(I, st, l, nm):
    f = fld(l, nm)
    v = st.store.get(f)
    if v is not None:
        return v
    if (f + BASE) in st.store or any(k[:len(f)] == f for k in st.store):
        return ('agg', f)
    return None


def keys(st, loc):
    v = st.store.get(loc + (KEYS,))
    return v[1] if v else None


def kloc(loc, k):
    return loc + (('kv', ('ck', k)),)


def put_key(I, st, loc, k, keyval):
    """insert key k (its value keyval) into map/set loc; the location of its pair"""
    ks = keys(st, loc)
    l = kloc(loc, k)
    if k not in ks:
        st.store[loc + (KEYS,)] = ('keys', tuple(sorted(ks + (k,))))
        I.drop(st, l)
        st.store[l + BASE] = ('fresh',)
        if keyval is not None:
            if isinstance(keyval, tuple) and keyval and keyval[0] == 'agg':
                I.copy_tree(st, keyval[1], fld(l, 'first'))
            else:
                st.store[fld(l, 'first')] = keyval
    return l


def the_key(I, st, fr, e, ol, args, i=0):
    v = aval(I, st, fr, e, args, i)
    k = ckey(I, st, v)
    if keys(st, ol) is None or k is None:
        raise AnalysisError('map with an unknown key at %s: %s' % (fr.where(e) if fr else '', str(v)[:200]))
    return k, v


def oob(I, st, fr, e, what):
    f = getattr(I.c, 'on_oob', None)
    if f:
        f(I, st, fr, e, what)
    else:
        raise AnalysisError('%s at %s' % (what, fr.where(e) if fr else ''))
    return []


# ------------------------------------------------------------------ maps and sets
def mapped(e):
    a = targs(e.get('cls') or e['o'].get('t'))
    return a[1] if len(a) > 1 else None


@xmodel('std::map::operator[]')
def m_idx(I, st, fr, e, q, ol, args):
    k, v = the_key(I, st, fr, e, ol, args)
    new = k not in keys(st, ol)
    l = put_key(I, st, ol, k, v)
    if new:
        default_init(I, st, fld(l, 'second'), mapped_type(e, ol), fr, e)
    return [(st, ('ref', fld(l, 'second')))]


def mapped_type(e, ol):
    t = e.get('cls') or (e['o'].get('t') if 'o' in e else '')
    a = targs(t)
    return a[1] if len(a) > 1 else e.get('t')


HUGE = 1 << 20          # sizes beyond are wrapped differences: they are not allocated


def throw(I, st, fr, e, what='out_of_range'):
    I.exc.append((st.copy(), ('exc', ('sym', ('std', what))), e, fr))
    return []


@xmodel('std::map::at')
def m_at(I, st, fr, e, q, ol, args):
    k, v = the_key(I, st, fr, e, ol, args)
    if k not in keys(st, ol):
        return throw(I, st, fr, e)
    return [(st, ('ref', fld(kloc(ol, k), 'second')))]


@xmodel('std::map::find', 'std::set::find')
def m_find(I, st, fr, e, q, ol, args):
    k, v = the_key(I, st, fr, e, ol, args)
    return [(st, ('xit', ol, k if k in keys(st, ol) else None))]


@xmodel('std::map::count', 'std::set::count')
def m_count(I, st, fr, e, q, ol, args):
    k, v = the_key(I, st, fr, e, ol, args)
    return [(st, ONE if k in keys(st, ol) else ZERO)]


@xmodel('std::map::lower_bound', 'std::map::upper_bound', 'std::set::lower_bound', 'std::set::upper_bound')
def m_bound(I, st, fr, e, q, ol, args):
    k, v = the_key(I, st, fr, e, ol, args)
    for x in keys(st, ol):
        if x >= k if q.endswith('lower_bound') else x > k:
            return [(st, ('xit', ol, x))]
    return [(st, ('xit', ol, None))]


@xmodel('std::map::end', 'std::map::cend', 'std::set::end', 'std::set::cend')
def m_end(I, st, fr, e, q, ol, args):
    return [(st, ('xit', ol, None))]


@xmodel('std::map::begin', 'std::map::cbegin', 'std::set::begin', 'std::set::cbegin')
def m_begin(I, st, fr, e, q, ol, args):
    ks = keys(st, ol)
    if ks is None:
        return None
    return [(st, ('xit', ol, ks[0] if ks else None))]


@xmodel('std::map::clear', 'std::set::clear')
def m_clear(I, st, fr, e, q, ol, args):
    c = 'set' if q.startswith('std::set') else 'map'
    I.drop(st, ol)
    empty(st, ol, c)
    return [(st, None)]


@xmodel('std::map::size', 'std::set::size')
def m_size(I, st, fr, e, q, ol, args):
    ks = keys(st, ol)
    return None if ks is None else [(st, Poly.const(len(ks)))]


@xmodel('std::map::empty', 'std::set::empty')
def m_empty(I, st, fr, e, q, ol, args):
    ks = keys(st, ol)
    return None if ks is None else [(st, not ks)]


@xmodel('std::map::erase', 'std::set::erase')
def m_erase(I, st, fr, e, q, ol, args):
    a = args[0]
    a = st.store.get(a[1], a) if isinstance(a, tuple) and a[:1] == ('ref',) else a
    ks = keys(st, ol)
    if isinstance(a, tuple) and a[:1] == ('xit',):
        if a[2] is None or a[2] not in ks:
            return oob(I, st, fr, e, 'an invalid iterator is erased')
        k = a[2]
        if len(args) == 2:
            b = args[1]
            gone = [x for x in ks if x >= k and (b[2] is None or x < b[2])]
            for x in gone:
                I.drop(st, kloc(ol, x))
            st.store[ol + (KEYS,)] = ('keys', tuple(x for x in ks if x not in gone))
            return [(st, b)]
        nxt = [x for x in ks if x > k]
        I.drop(st, kloc(ol, k))
        st.store[ol + (KEYS,)] = ('keys', tuple(x for x in ks if x != k))
        return [(st, ('xit', ol, nxt[0] if nxt else None))]
    k, v = the_key(I, st, fr, e, ol, args)
    if k in ks:
        I.drop(st, kloc(ol, k))
        st.store[ol + (KEYS,)] = ('keys', tuple(x for x in ks if x != k))
    return [(st, ONE if k in ks else ZERO)]


@xmodel('std::map::insert', 'std::map::emplace', 'std::set::insert')
def m_insert(I, st, fr, e, q, ol, args):
    ks = keys(st, ol)
    if ks is not None and q.endswith('insert') and len(args) == 2 and strip(argt(e, 0)) == strip(argt(e, 1)):
        x, y = (as_it(I, st, fr, e, args, i, str(i)) for i in range(2))
        return [(s, None) for s in loop(I, st, x, y, lambda s, v: add_to(I, s, fr, e, ol, v))]
    if ks is None or len(args) != (2 if q.endswith('emplace') else 1):
        return None
    loc = I.temp(fr, e)
    if q == 'std::set::insert':
        k, v = the_key(I, st, fr, e, ol, args)
        put_key(I, st, ol, k, v)
    elif q.endswith('emplace'):
        k, v = the_key(I, st, fr, e, ol, args)
        if k not in ks:
            l = put_key(I, st, ol, k, v)
            I.write(st, fld(l, 'second'), aval(I, st, fr, e, args, 1), fr, e)
    else:
        a = args[0]
        kv = part(I, st, a[1], 'first'); k = ckey(I, st, kv)
        if k is None:
            raise AnalysisError('map with an unknown key at %s' % fr.where(e))
        if k not in ks:
            l = put_key(I, st, ol, k, kv)
            I.copy_tree(st, fld(a[1], 'second'), fld(l, 'second')) if part(I, st, a[1], 'second')[:1] == ('agg',) else I.write(st, fld(l, 'second'), part(I, st, a[1], 'second'), fr, e)
    I.drop(st, loc)
    st.store[loc + BASE] = ('fresh',)
    st.store[fld(loc, 'first')] = ('xit', ol, k)
    st.store[fld(loc, 'second')] = k not in ks
    return [(st, ('agg', loc))]


def add_to(I, st, fr, e, ol, v):
    """insert what an iterator gives into a set or map"""
    st = st.copy()
    ismap = not st.store.get(ol + (SETM,))
    x = content(I, st, fr, e, v)
    kv = part(I, st, x[1], 'first') if ismap else x
    k = ckey(I, st, kv)
    if k is None:
        raise AnalysisError('an unknown key is inserted at %s' % fr.where(e))
    if k not in keys(st, ol):
        l = put_key(I, st, ol, k, kv)
        if ismap:
            w = part(I, st, x[1], 'second')
            if w[:1] == ('agg',) if isinstance(w, tuple) else False:
                I.copy_tree(st, w[1], fld(l, 'second'))
            else:
                I.write(st, fld(l, 'second'), w, fr, e)
    return [st]


# ------------------------------------------------------------------ iterators
def deref(I, st, fr, v, e):
    """location an iterator points to (None: undefined behaviour)"""
    if isinstance(v, tuple) and v:
        if v[0] == 'rit':
            i, n = v[2].cval(), vsz(I, st, v[1]).cval()
            return None if i is None or n is None or not 0 <= i < n else v[1] + (('i', v[2]),)
        if v[0] == 'xit':
            if v[2] is None or v[2] not in (keys(st, v[1]) or ()):
                return None
            l = kloc(v[1], v[2])
            return fld(l, 'first') if v[3:] == ('set',) or st.store.get(v[1] + (SETM,)) else l
        if v[0] == 'ref':
            l = v[1]
            if isinstance(l[-1], tuple) and l[-1][0] == 'i':
                n = st.store.get(l[:-1] + (SIZE,))
                i = l[-1][1].cval()
                if n is not None and n.cval() is not None and i is not None and not 0 <= i < n.cval():
                    return None
            return l
    return I.deref(st, fr, v, e)


def advance(I, st, v, d=1):
    if isinstance(v, tuple) and v[:1] == ('xit',):
        ks = keys(st, v[1])
        i = len(ks) if v[2] is None else (ks.index(v[2]) if v[2] in ks else None)
        if i is None or not 0 <= i + d <= len(ks):
            return None
        return ('xit', v[1], ks[i + d] if i + d < len(ks) else None)
    if isinstance(v, tuple) and v[:1] == ('rit',):
        return ('rit', v[1], v[2] - Poly.const(d))
    return I.ptr_add(v, Poly.const(d))


STD_IT = ('__gnu_cxx::__normal_iterator::operator', 'std::_Rb_tree_iterator::operator', 'std::_Rb_tree_const_iterator::operator',
          'std::_List_iterator::operator', 'std::_List_const_iterator::operator')


def x_star(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, e['o'].get('t'), fr, e)
    l = deref(I, st, fr, v, e)
    if l is None:
        return oob(I, st, fr, e, 'an iterator outside its range is dereferenced')
    return [(st, ('ref', l))]


def x_inc(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, e['o'].get('t'), fr, e)
    op = q.rsplit('operator', 1)[1]
    post = len(args) == 1
    n = advance(I, st, v, 1 if op == '++' else -1)
    if n is None:
        return oob(I, st, fr, e, 'an iterator is moved outside its range')
    I.write(st, ol, n, fr, e)
    return [(st, v if post else ('ref', ol))]


def x_itassign(I, st, fr, e, q, ol, args):
    v = aval(I, st, fr, e, args, 0, e['o'].get('t'))
    st.store[ol] = hashable(v)
    return [(st, ('ref', ol))]


for _p in STD_IT:
    XM[_p + '*'] = x_star
    XM[_p + '='] = x_itassign
    XM[_p + '->'] = x_star
    XM[_p + '++'] = x_inc
    XM[_p + '--'] = x_inc


def compare(I, st, op, a, b):
    """value of a comparison of two values of the same class type: bool or formula (None: unknown)"""
    if op in ('!=', '>', '<=', '>='):
        r = compare(I, st, {'!=': '==', '>': '<', '<=': '<', '>=': '<'}[op], *((b, a) if op in ('>', '<=') else (a, b)))
        return r if r is None or op == '>' else neg(r)
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] in ('xit', 'rxit') and b[0] == a[0]:
            return a[1:3] == b[1:3] if op == '==' else None
        if a[0] == 'rit' and b[0] == 'rit' and a[1] == b[1]:
            return I.rel(op, a[2], b[2]) if op == '==' else I.rel(op, b[2], a[2])
        if a[0] == 'agg' and b[0] == 'agg':
            ka, kb = ckey(I, st, a), ckey(I, st, b)
            if ka is None or kb is None:
                return None
            return ka == kb if op == '==' else ka < kb
    r = I.rel(op, a, b)
    return r


def x_cmp(I, st, fr, e, q, ol, args):
    op = e.get('op') or q.rsplit('operator', 1)[1]
    vals = []
    if ol is not None and len(args) < 2:
        t = e['o'].get('t')
        vals.append(('agg', ol) if kind(t) == 'agg' and not _is_enum(t) else I.read(st, ol, t, fr, e))
    for i in range(len(args)):
        vals.append(aval(I, st, fr, e, args, i))
    if len(vals) != 2:
        return None
    if any(isinstance(v, tuple) and v[:1] == ('str',) for v in vals):
        vals = [st.store.get(v[1], v) if isinstance(v, tuple) and v[:1] in (('agg',), ('ref',)) else v for v in vals]
    r = compare(I, st, op, vals[0], vals[1])
    if r is None:
        raise AnalysisError('comparison of %s and %s at %s' % (str(vals[0])[:80], str(vals[1])[:80], fr.where(e)))
    return [(st, r)]


for _n in ('==', '!=', '<', '>', '<=', '>='):
    for _p in STD_IT + ('std::operator', '__gnu_cxx::operator'):
        XM[(_p + _n) if _p.endswith('operator') else _p] = x_cmp


def fns_of(p, cls, name):
    ix = getattr(p, '_bycls', None)
    if ix is None:
        ix = p._bycls = {}
        for f in p.fns.values():
            if f.cls:
                ix.setdefault((f.cls, f.name), []).append(f)
    out = []
    for b in p.bases(cls) if cls in p.classes else [cls]:
        out += ix.get((b, name), [])
    return out


class It:
    """an iterator object at a location, of any type, operated by models of algorithms"""

    def __init__(self, I, fr, e, loc, t):
        self.I, self.fr, self.e, self.loc, self.t = I, fr, e, loc, strip(t)
        self.user = kind(t) == 'agg' and not self.t.startswith('std::_Bit_')

    def val(self, st):
        return st.store.get(self.loc)

    def put(self, st, v):
        """*it++ = v -> [state]"""
        I = self.I
        w = st.store.get(self.loc)
        if isinstance(w, tuple) and w[:1] == ('bins',):
            s = st.copy()
            push(I, s, self.fr, dict(self.e, cls=w[2]), w[1], v)
            return [s]
        out = []
        for s, r in self.star(st):
            s = s.copy()
            if r != v:
                store(I, s, self.fr, self.e, r[1], v)
            out.extend(self.inc(s))
        return out

    def star(self, st):
        """[(state, ref or value)]"""
        I = self.I
        if not self.user:
            l = deref(I, st, self.fr, self.val(st), self.e)
            if l is None:
                return oob(I, st, self.fr, self.e, 'an iterator outside its range is dereferenced')
            return [(st, ('ref', l))]
        fs = [f for f in fns_of(I.p, self.t, 'operator*') if not f.params]
        if not fs:
            raise AnalysisError('no dereference operator of ' + self.t)
        return I.invoke(st, self.fr, dict(self.e, _u=('star', I.uid(self.e))), fs[0], self.loc, [])

    def inc(self, st):
        I = self.I
        if not self.user:
            n = advance(I, st, self.val(st))
            if n is None:
                return oob(I, st, self.fr, self.e, 'an iterator is moved outside its range')
            s = st.copy()
            s.store[self.loc] = n
            return [s]
        fs = [f for f in fns_of(I.p, self.t, 'operator++') if not f.params]
        if not fs:
            raise AnalysisError('no increment operator of ' + self.t)
        return [s for s, _ in I.invoke(st, self.fr, dict(self.e, _u=('inc', I.uid(self.e))), fs[0], self.loc, [])]

    def ne(self, st, other):
        """[(state, bool)]"""
        I = self.I
        if not self.user:
            return I.branch(st, compare(I, st, '!=', self.val(st), other.val(st)))
        for nm, inv in (('operator!=', False), ('operator==', True)):
            for f in fns_of(I.p, self.t, nm):
                if len(f.params) == 1 and strip(f.params[0]['t']) == other.t:
                    out = []
                    for s, v in I.invoke(st, self.fr, dict(self.e, _u=('ne', I.uid(self.e))), f, self.loc, [('ref', other.loc)]):
                        for s2, b in I.branch(s, v):
                            out.append((s2, b != inv))
                    return out
        raise AnalysisError('no comparison operator of ' + self.t)


def as_it(I, st, fr, e, args, i, tag):
    """argument i as an iterator object of its own"""
    v = aval(I, st, fr, e, args, i)
    t = argt(e, i)
    loc = I.temp(fr, e, 'it' + tag)
    I.drop(st, loc)
    if '[' in strip(t) and isinstance(v, tuple) and v[:1] in (('agg',), ('ref',)) and '*' not in t:
        st.store[loc] = ('ref', v[1] + (('i', ZERO),))
        return It(I, fr, e, loc, strip(t).split('[')[0] + '*')
    if isinstance(v, tuple) and v[:1] == ('agg',):
        I.copy_tree(st, v[1], loc)
    else:
        st.store[loc] = v
    return It(I, fr, e, loc, t)


def store(I, st, fr, e, l, v, t=None):
    """write value v (possibly an aggregate) into location l"""
    if isinstance(v, tuple) and v[:1] == ('ref',):
        x = st.store.get(v[1])
        if x is None:
            I.copy_tree(st, v[1], l, fr, e)
            unwrap(I, st, l, t)
            return
        v = x
    if isinstance(v, tuple) and v[:1] == ('agg',):
        I.copy_tree(st, v[1], l, fr, e)
        unwrap(I, st, l, t)
        return
    I.write(st, l, v, fr, e)


def unwrap(I, st, l, t=None):
    """a pair whose second is a wrapped reference becomes a pair of values"""
    a = targs(t) if t else None
    if a and strip(a[-1]).endswith('*'):
        return
    v = st.store.get(fld(l, 'second'))
    if isinstance(v, tuple) and v[:1] == ('ref',):
        w = st.store.get(v[1])
        if isinstance(w, Poly):
            st.store[fld(l, 'second')] = w


def loop(I, st, first, last, body):
    """run body on every position of a range: body(state, ref or value) -> states"""
    done, cur = [], [st]
    for _ in range(400):
        nxt = []
        for s in cur:
            for s2, go in first.ne(s, last):
                if not go:
                    done.append(s2); continue
                for s3, v in first.star(s2):
                    for s4 in body(s3.copy(), v):
                        nxt.extend(first.inc(s4))
        cur = I.dedupe(nxt)
        if not cur:
            return I.dedupe(done)
    raise AnalysisError('a range of unknown length at %s' % (first.fr.where(first.e) if first.fr else ''))


FUNCTORS = {'plus': lambda a, b: a + b, 'minus': lambda a, b: a - b, 'multiplies': lambda a, b: a * b, 'divides': lambda a, b: a / b, 'negate': lambda a: -a,
            'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!='}


def fval(I, st, fr, e, args, i):
    """argument i as a function value"""
    t = strip(argt(e, i) or '')
    v = aval(I, st, fr, e, args, i)
    if t.startswith('std::') and t[5:].split('<')[0] in FUNCTORS:
        return ('functor', t[5:].split('<')[0])
    return v


def call(I, st, fr, e, f, args):
    """[(state, value)] of a call of a function value"""
    if isinstance(f, tuple) and f[:1] == ('functor',):
        g = FUNCTORS[f[1]]
        x = [content(I, st, fr, e, a) for a in args]
        if isinstance(g, str):
            r = compare(I, st, g, *x)
            if r is None:
                raise AnalysisError('a comparison in an algorithm at %s' % fr.where(e))
            return [(st, r)]
        return [(st, g(*x))]
    return I.call_value(st, fr, e, f, args)


@xmodel('std::back_inserter')
def x_back_inserter(I, st, fr, e, q, ol, args):
    loc = I.temp(fr, e, 'bins')
    st.store[loc] = ('bins', args[0][1], strip(argt(e, 0)))
    return [(st, ('agg', loc))]


@xmodel('std::unique')
def x_unique(I, st, fr, e, q, ol, args):
    va, vb = (aval(I, st, fr, e, args, i) for i in range(2))
    n = I.ptr_diff(vb, va) if isinstance(va, tuple) and va[0] == 'ref' else None
    if len(args) > 2 or n is None or n.cval() is None:
        return None
    base = lambda i: I.ptr_add(va, Poly.const(i))[1]
    cur = [(st, 0)]         # number of elements kept
    for i in range(int(n.cval())):
        nxt = []
        for s, k in cur:
            x = s.store.get(base(i))
            if x is None:
                return None
            if k == 0:
                nxt.append((s, 1)); continue
            for s2, same in I.branch(s, compare(I, s, '==', s.store[base(k - 1)], x)):
                if not same:
                    s2 = s2.copy()
                    I.write(s2, base(k), x, fr, e)
                nxt.append((s2, k if same else k + 1))
        cur = nxt
    return [(s, I.ptr_add(va, Poly.const(k))) for s, k in cur]


@xmodel('std::copy')
def x_copy(I, st, fr, e, q, ol, args):
    a, b, d = (as_it(I, st, fr, e, args, i, str(i)) for i in range(3))

    return [itres(s, d) for s in loop(I, st, a, b, d.put)]


@xmodel('std::fill')
def x_fill(I, st, fr, e, q, ol, args):
    a, b = (as_it(I, st, fr, e, args, i, str(i)) for i in range(2))
    v = aval(I, st, fr, e, args, 2)

    def body(s, r):
        I.write(s, r[1], v, fr, e)
        return [s]
    return [(s, None) for s in loop(I, st, a, b, body)]


@xmodel('std::distance')
def x_distance(I, st, fr, e, q, ol, args):
    a, b = (as_it(I, st, fr, e, args, i, str(i)) for i in range(2))
    cnt = I.temp(fr, e, 'cnt')
    st.store[cnt] = ZERO

    def body(s, r):
        s.store[cnt] = s.store[cnt] + ONE
        return [s]
    # only moved and compared, never dereferenced
    a.star = lambda s: [(s, None)]
    return [(s, s.store[cnt]) for s in loop(I, st, a, b, body)]


@xmodel('std::accumulate')
def x_accumulate(I, st, fr, e, q, ol, args):
    a, b = (as_it(I, st, fr, e, args, i, str(i)) for i in range(2))
    acc = I.temp(fr, e, 'acc')
    st.store[acc] = aval(I, st, fr, e, args, 2)
    f = fval(I, st, fr, e, args, 3) if len(args) > 3 else None

    def body(s, r):
        v = I.read(s, r[1], 'double', fr, e) if isinstance(r, tuple) and r[:1] == ('ref',) else r
        if f is None:
            s.store[acc] = s.store[acc] + v
            return [s]
        out = []
        for s2, w in call(I, s, fr, e, f, [s.store[acc], v]):
            s2 = s2.copy()
            s2.store[acc] = w
            out.append(s2)
        return out
    return [(s, s.store[acc]) for s in loop(I, st, a, b, body)]


@xmodel('std::for_each')
def x_for_each(I, st, fr, e, q, ol, args):
    a, b = (as_it(I, st, fr, e, args, i, str(i)) for i in range(2))
    f = fval(I, st, fr, e, args, 2)
    return [(s, f) for s in loop(I, st, a, b, lambda s, r: [s2 for s2, _ in call(I, s, fr, e, f, [r])])]


@xmodel('std::transform')
def x_transform(I, st, fr, e, q, ol, args):
    k = len(args)
    its = [as_it(I, st, fr, e, args, i, str(i)) for i in range(k - 1)]
    f = fval(I, st, fr, e, args, k - 1)
    a, b, d = its[0], its[1], its[-1]

    def body(s, v):
        if k == 4:
            pre = [(s, [v])]
        else:
            pre = [(s2, [v, w]) for s2, w in its[2].star(s)]
        out = []
        for s2, vs in pre:
            for s3, r in call(I, s2, fr, e, f, vs):
                for s5 in d.put(s3, r):
                    out.extend(its[2].inc(s5) if k == 5 else [s5])
        return out
    return [itres(s, d) for s in loop(I, st, a, b, body)]


@xmodel('std::lower_bound', 'std::upper_bound')
def x_bound(I, st, fr, e, q, ol, args):
    a, b = (as_it(I, st, fr, e, args, i, str(i)) for i in range(2))
    v = args[2]
    if not (isinstance(v, tuple) and v[:1] in (('ref',), ('agg',))):
        loc = I.temp(fr, e, 'val')
        st.store[loc] = v
        v = ('ref', loc)
    v = ('ref', v[1])
    f = fval(I, st, fr, e, args, 3) if len(args) > 3 else None
    low = q.endswith('lower_bound')
    # binary search on a sorted range finds the first position at which the comparison fails; on an unsorted range its
    # answer is one of the positions the search can reach, so the search itself is carried out
    va, vb = a.val(st), b.val(st)
    n = I.ptr_diff(vb, va) if not a.user and va[0] == 'ref' else None
    if n is None or n.cval() is None:
        raise AnalysisError('search in a range of unknown length at %s' % fr.where(e))
    out = []

    def search(s, first, cnt):
        if cnt <= 0:
            out.append((s, first)); return
        step = cnt // 2
        mid = I.ptr_add(first, Poly.const(step))
        l = deref(I, s, fr, mid, e)
        if l is None:
            oob(I, s, fr, e, 'a search leaves its range'); return
        x = [('ref', l), v] if low else [v, ('ref', l)]
        if f is not None:
            res = call(I, s, fr, e, f, x)
        else:
            vals = [w if (w := s.store.get(y[1])) is not None else ('agg', y[1]) for y in x]
            res = [(s, compare(I, s, '<', *vals))]
        for s2, c in res:
            for s3, t in I.branch(s2, c):
                if t == low:
                    search(s3, I.ptr_add(mid, ONE), cnt - step - 1)
                else:
                    search(s3, first, step)
    search(st, va, int(n.cval()))
    return out


def content(I, st, fr, e, r):
    """the value behind what an iterator gives"""
    if isinstance(r, tuple) and r[:1] == ('ref',):
        w = st.store.get(r[1])
        if w is None and kids(I, st, r[1]):
            return ('agg', r[1])
        if w is None:
            w = I.read(st, r[1], e.get('vt') or 'double', fr, e)
        if isinstance(w, tuple) and w[:1] == ('ref',) and len(r[1]) and r[1][-1][0] != 'i':
            return w
        return w
    return r


def kids(I, st, l):
    return any(len(k) > len(l) and k[:len(l)] == l for k in st.store)


def scan(I, st, fr, e, a, b, f, test):
    """[(state at the first position where test holds, True) or (state at the end, False)]: test(state, ref) -> [(state, bool)]"""
    out, cur = [], [st]
    for _ in range(400):
        nxt = []
        for s in cur:
            for s2, go in a.ne(s, b):
                if not go:
                    out.append((s2, False)); continue
                for s3, r in a.star(s2):
                    for s4, t in test(s3, r):
                        if t:
                            out.append((s4, True))
                        else:
                            nxt.extend(a.inc(s4))
        cur = I.dedupe(nxt)
        if not cur:
            return out
    raise AnalysisError('a range of unknown length at %s' % fr.where(e))


def tester(I, st, fr, e, args, i, pred):
    """test of a position: a predicate, or equality with a value"""
    if pred:
        f = fval(I, st, fr, e, args, i)
        return lambda s, r: [x for s2, c in call(I, s, fr, e, f, [r]) for x in I.branch(s2, c)]
    v = aval(I, st, fr, e, args, i)
    if isinstance(v, tuple) and v[:1] == ('ref',):
        v = content(I, st, fr, e, v)

    def t(s, r):
        c = compare(I, s, '==', content(I, s, fr, e, r), v)
        if c is None:
            raise AnalysisError('a comparison in an algorithm at %s' % fr.where(e))
        return I.branch(s, c)
    return t


def neg_test(t):
    return lambda s, r: [(s2, not b) for s2, b in t(s, r)]


def two(I, st, fr, e, args):
    return tuple(as_it(I, st, fr, e, args, i, str(i)) for i in range(2))


def itres(s, it):
    return (s, ('agg', it.loc) if it.user else it.val(s))


@xmodel('std::find', 'std::find_if', 'std::find_if_not')
def x_findif(I, st, fr, e, q, ol, args):
    a, b = two(I, st, fr, e, args)
    t = tester(I, st, fr, e, args, 2, q != 'std::find')
    if q.endswith('_not'):
        t = neg_test(t)
    return [itres(s, a) for s, _ in scan(I, st, fr, e, a, b, None, t)]


@xmodel('std::any_of', 'std::all_of', 'std::none_of')
def x_anyof(I, st, fr, e, q, ol, args):
    a, b = two(I, st, fr, e, args)
    t = tester(I, st, fr, e, args, 2, True)
    if q.endswith('all_of'):
        t = neg_test(t)
    return [(s, found == q.endswith('any_of')) for s, found in scan(I, st, fr, e, a, b, None, t)]


@xmodel('std::count', 'std::count_if')
def x_count(I, st, fr, e, q, ol, args):
    a, b = two(I, st, fr, e, args)
    t = tester(I, st, fr, e, args, 2, q != 'std::count')
    cnt = I.temp(fr, e, 'cnt')
    st.store[cnt] = ZERO

    def body(s, r):
        out = []
        for s2, yes in t(s, r):
            s2 = s2.copy()
            if yes:
                s2.store[cnt] = s2.store[cnt] + ONE
            out.append(s2)
        return out
    return [(s, s.store[cnt]) for s in loop(I, st, a, b, body)]


@xmodel('std::equal')
def x_equal(I, st, fr, e, q, ol, args):
    a, b = two(I, st, fr, e, args)
    c = as_it(I, st, fr, e, args, 2, '2')
    f = fval(I, st, fr, e, args, 3) if len(args) == 4 else None
    if len(args) > 4:
        return None

    def t(s, r):
        out = []
        for s2, w in c.star(s):
            if f is not None:
                res = call(I, s2, fr, e, f, [r, w])
            else:
                res = [(s2, compare(I, s2, '==', content(I, s2, fr, e, r), content(I, s2, fr, e, w)))]
            for s3, v in res:
                for s4, same in I.branch(s3, v):
                    out += [(s5, not same) for s5 in c.inc(s4)]
        return out
    return [(s, not diff) for s, diff in scan(I, st, fr, e, a, b, None, t)]


@xmodel('std::copy_if', 'std::remove_copy_if', 'std::remove_copy')
def x_copy_if(I, st, fr, e, q, ol, args):
    a, b = two(I, st, fr, e, args)
    d = as_it(I, st, fr, e, args, 2, '2')
    t = tester(I, st, fr, e, args, 3, q != 'std::remove_copy')
    want = q == 'std::copy_if'

    def body(s, v):
        out = []
        for s2, yes in t(s, v):
            if yes != want:
                out.append(s2); continue
            out.extend(d.put(s2, v))
        return out
    return [itres(s, d) for s in loop(I, st, a, b, body)]


@xmodel('std::remove', 'std::remove_if')
def x_remove(I, st, fr, e, q, ol, args):
    a, b = two(I, st, fr, e, args)
    d = as_it(I, st, fr, e, args, 0, 'd')
    t = tester(I, st, fr, e, args, 2, q != 'std::remove')

    def body(s, v):
        out = []
        for s2, yes in t(s, v):
            if yes:
                out.append(s2); continue
            out.extend(d.put(s2, v))
        return out
    return [itres(s, d) for s in loop(I, st, a, b, body)]


@xmodel('std::replace', 'std::replace_if')
def x_replace(I, st, fr, e, q, ol, args):
    a, b = two(I, st, fr, e, args)
    t = tester(I, st, fr, e, args, 2, q != 'std::replace')
    v = aval(I, st, fr, e, args, 3)

    def body(s, r):
        out = []
        for s2, yes in t(s, r):
            s2 = s2.copy()
            if yes:
                store(I, s2, fr, e, r[1], v)
            out.append(s2)
        return out
    return [(s, None) for s in loop(I, st, a, b, body)]


@xmodel('std::copy_n', 'std::fill_n', 'std::generate_n')
def x_n(I, st, fr, e, q, ol, args):
    n = aval(I, st, fr, e, args, 1)
    c = n.cval() if isinstance(n, Poly) else None
    if c is None or c > 400:
        return None
    copy = q.endswith('copy_n')
    a = as_it(I, st, fr, e, args, 0, '0') if copy else None
    d = as_it(I, st, fr, e, args, 2 if copy else 0, 'd')
    v = None if copy else aval(I, st, fr, e, args, 2)
    cur = [st]
    for _ in range(int(max(c, 0))):
        nxt = []
        for s in cur:
            if copy:
                vals = a.star(s)
            elif q.endswith('fill_n'):
                vals = [(s, v)]
            else:
                vals = call(I, s, fr, e, v, [])
            for s2, x in vals:
                for s4 in d.put(s2, x):
                    nxt.extend(a.inc(s4) if copy else [s4])
        cur = I.dedupe(nxt)
    return [itres(s, d) for s in cur]


@xmodel('std::iota')
def x_iota(I, st, fr, e, q, ol, args):
    a, b = two(I, st, fr, e, args)
    k = I.temp(fr, e, 'iota')
    st.store[k] = aval(I, st, fr, e, args, 2)

    def body(s, r):
        store(I, s, fr, e, r[1], s.store[k])
        s.store[k] = s.store[k] + ONE
        return [s]
    return [(s, None) for s in loop(I, st, a, b, body)]


@xmodel('std::inner_product')
def x_inner(I, st, fr, e, q, ol, args):
    if len(args) != 4:
        return None
    a, b = two(I, st, fr, e, args)
    c = as_it(I, st, fr, e, args, 2, '2')
    acc = I.temp(fr, e, 'acc')
    st.store[acc] = aval(I, st, fr, e, args, 3)

    def body(s, r):
        out = []
        for s2, w in c.star(s):
            s2 = s2.copy()
            s2.store[acc] = s2.store[acc] + content(I, s2, fr, e, r) * content(I, s2, fr, e, w)
            out.extend(c.inc(s2))
        return out
    return [(s, s.store[acc]) for s in loop(I, st, a, b, body)]


@xmodel('std::reverse')
def x_reverse(I, st, fr, e, q, ol, args):
    va, vb = (aval(I, st, fr, e, args, i) for i in range(2))
    n = I.ptr_diff(vb, va) if isinstance(va, tuple) and va[0] == 'ref' else None
    if n is None or n.cval() is None:
        return None
    n = int(n.cval())
    st = st.copy()
    for i in range(n // 2):
        models.swap_trees(I, st, fr, e, I.ptr_add(va, Poly.const(i))[1], I.ptr_add(va, Poly.const(n - 1 - i))[1])
    return [(st, None)]


@xmodel('std::binary_search')
def x_binary_search(I, st, fr, e, q, ol, args):
    vb = aval(I, st, fr, e, args, 1)
    v = args[2]
    if not (isinstance(v, tuple) and v[:1] in (('ref',), ('agg',))):
        loc = I.temp(fr, e, 'key')
        st.store[loc] = v
        v = ('ref', loc)
    v = ('ref', v[1])
    f = fval(I, st, fr, e, args, 3) if len(args) > 3 else None
    out = []
    for s, pos in x_bound(I, st, fr, e, 'std::lower_bound', ol, args):
        if pos == vb:
            out.append((s, False)); continue
        x = [v, ('ref', pos[1])]
        if f is not None:
            res = call(I, s, fr, e, f, x)
        else:
            res = [(s, compare(I, s, '<', *(content(I, s, fr, e, y) for y in x)))]
        for s2, c in res:
            out += [(s3, not t) for s3, t in I.branch(s2, c)]
    return out


@xmodel('std::max_element', 'std::min_element')
def x_extreme(I, st, fr, e, q, ol, args):
    va, vb = (aval(I, st, fr, e, args, i) for i in range(2))
    f = fval(I, st, fr, e, args, 2) if len(args) > 2 else None
    n = I.ptr_diff(vb, va) if isinstance(va, tuple) and va[0] == 'ref' else None
    if n is None or n.cval() is None:
        return None
    if n.cval() <= 0:
        return [(st, vb)]
    cur = [(st, va)]
    for i in range(1, int(n.cval())):
        p = I.ptr_add(va, Poly.const(i))
        nxt = []
        for s, best in cur:
            x = [('ref', best[1]), ('ref', p[1])]
            if q.endswith('min_element'):
                x.reverse()
            if f is not None:
                res = call(I, s, fr, e, f, x)
            else:
                res = [(s, compare(I, s, '<', *(content(I, s, fr, e, y) for y in x)))]
            for s2, c in res:
                nxt += [(s3, p if t else best) for s3, t in I.branch(s2, c)]
        cur = nxt
    return cur


def at_pos(I, ol, v):
    """index of an iterator into the container"""
    if isinstance(v, tuple) and v[:1] == ('ref',) and v[1][:-1] == ol and v[1][-1][0] == 'i':
        return v[1][-1][1].cval()
    return None


@xmodel('std::vector::erase')
def v_erase(I, st, fr, e, q, ol, args):
    n = vsz(I, st, ol).cval()
    i = at_pos(I, ol, aval(I, st, fr, e, args, 0))
    j = at_pos(I, ol, aval(I, st, fr, e, args, 1)) if len(args) > 1 else (None if i is None else i + 1)
    if n is None or i is None or j is None:
        return None
    if not 0 <= i <= j <= n:
        return oob(I, st, fr, e, 'elements %s to %s of %s are erased' % (i, j, n))
    st = st.copy()
    materialise(I, st, ol, models.elt(e))
    l = lambda k: ol + (('i', Poly.const(k)),)
    d = int(j - i)
    if d:
        for k in range(int(i), int(n) - d):
            move_tree(I, st, fr, e, l(k + d), l(k))
        for k in range(int(n) - d, int(n)):
            I.drop(st, l(k))
            st.store[ol + EL] = st.store.get(ol + EL, frozenset()) - {l(k)[-1]}
    st.store[ol + (SIZE,)] = Poly.const(int(n) - d)
    return [(st, ('ref', l(int(i))))]


def move_tree(I, st, fr, e, src, dst):
    I.drop(st, dst)
    if src in st.store and not kids(I, st, src):
        st.store[dst] = st.store[src]
    else:
        I.copy_tree(st, src, dst, fr, e)
    st.store[dst[:-1] + EL] = st.store.get(dst[:-1] + EL, frozenset()) | {dst[-1]}


@xmodel('std::vector::insert', 'std::vector::emplace')
def v_insert(I, st, fr, e, q, ol, args):
    n = vsz(I, st, ol).cval()
    i = at_pos(I, ol, aval(I, st, fr, e, args, 0))
    if n is None or i is None or not 0 <= i <= n:
        return None
    st = st.copy()
    et = models.elt(e)
    materialise(I, st, ol, et)
    tmp = I.temp(fr, e, 'ins')
    I.drop(st, tmp)
    empty(st, tmp, 'vector')
    if len(args) == 2:
        sts = [push(I, st, fr, e, tmp, args[1])]
    elif len(args) == 3 and isinstance(args[1], Poly):
        c = args[1].cval()
        if c is None or not 0 <= c <= 400:
            return None
        for _ in range(int(c)):
            push(I, st, fr, e, tmp, args[2])
        sts = [st]
    elif len(args) == 3:
        a, b = (as_it(I, st, fr, e, args, k, str(k)) for k in (1, 2))
        sts = loop(I, st, a, b, lambda s, v: [push(I, s, fr, e, tmp, v)])
    else:
        return None
    l = lambda k: ol + (('i', Poly.const(k)),)
    out = []
    for s in sts:
        s = s.copy()
        m = int(vsz(I, s, tmp).cval())
        for k in range(int(n) - 1, int(i) - 1, -1):
            if m:
                move_tree(I, s, fr, e, l(k), l(k + m))
        for k in range(m):
            move_tree(I, s, fr, e, tmp + (('i', Poly.const(k)),), l(int(i) + k))
        b = s.store.get(ol + BASE)
        if b is None or b[0] == 'fill':
            s.store[ol + BASE] = ('fresh',)
        s.store[ol + (SIZE,)] = Poly.const(int(n) + m)
        out.append((s, ('ref', l(int(i)))))
    return out


@xmodel('std::is_sorted')
def x_is_sorted(I, st, fr, e, q, ol, args):
    va, vb = (aval(I, st, fr, e, args, i) for i in range(2))
    f = fval(I, st, fr, e, args, 2) if len(args) > 2 else None
    n = I.ptr_diff(vb, va) if isinstance(va, tuple) and va[0] == 'ref' else None
    if n is None or n.cval() is None:
        return None
    done, cur = [], [st]
    for i in range(1, int(n.cval())):
        nxt = []
        for s in cur:
            x = [('ref', I.ptr_add(va, Poly.const(i))[1]), ('ref', I.ptr_add(va, Poly.const(i - 1))[1])]
            if f is not None:
                res = call(I, s, fr, e, f, x)
            else:
                vals = [w if (w := s.store.get(y[1])) is not None else ('agg', y[1]) for y in x]
                res = [(s, compare(I, s, '<', *vals))]
            for s2, c in res:
                for s3, t in I.branch(s2, c):
                    (done if t else nxt).append(s3)
        cur = I.dedupe(nxt)
    return [(s, False) for s in done] + [(s, True) for s in cur]


@xmodel('std::sort', 'std::stable_sort')
def x_sort(I, st, fr, e, q, ol, args):
    """insertion sort by the given order (all orders agree for distinct elements)"""
    va, vb = (aval(I, st, fr, e, args, i) for i in range(2))
    f = fval(I, st, fr, e, args, 2) if len(args) > 2 else None
    n = I.ptr_diff(vb, va) if isinstance(va, tuple) and va[0] == 'ref' else None
    if n is None or n.cval() is None:
        return None
    tmp = I.temp(fr, e, 'srt')
    cur = [st]
    base = lambda i: I.ptr_add(va, Poly.const(i))[1]
    for i in range(1, int(n.cval())):
        for j in range(i, 0, -1):
            nxt = []
            for s in cur:
                x = [('ref', base(j)), ('ref', base(j - 1))]
                if f is not None:
                    res = call(I, s, fr, e, f, x)
                else:
                    vals = [w if (w := s.store.get(y[1])) is not None else ('agg', y[1]) for y in x]
                    res = [(s, compare(I, s, '<', *vals))]
                for s2, c in res:
                    for s3, t in I.branch(s2, c):
                        if t:
                            s3 = s3.copy()
                            models.swap_trees(I, s3, fr, e, base(j), base(j - 1))
                        nxt.append(s3)
            cur = I.dedupe(nxt)
    return [(s, None) for s in cur]


@xmodel('std::_Bit_reference::operator=')
def x_bitassign(I, st, fr, e, q, ol, args):
    v = aval(I, st, fr, e, args, 0, 'bool')
    if isinstance(v, tuple) and v[:1] in (('ref',), ('bitref',)):
        v = I.read(st, v[1], 'bool', fr, e)
    I.write(st, bit(st, ol, fr, e), v, fr, e)
    return [(st, ('ref', ol))]


def bit(st, ol, fr, e):
    v = st.store.get(ol)
    if isinstance(v, (bool, Poly)) or isinstance(v, tuple) and v[:1] in (('cmp',), ('not',), ('sym',)):
        return ol           # the element itself
    if not (isinstance(v, tuple) and v[:1] == ('bitref',)):
        raise AnalysisError('an unknown element of a vector of bool at %s' % fr.where(e))
    return v[1]


@xmodel('std::_Bit_iterator::operator*', 'std::_Bit_const_iterator::operator*')
def x_bitstar(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, None, fr, e)
    l = deref(I, st, fr, v, e)
    if l is None:
        return oob(I, st, fr, e, 'an iterator outside its range is dereferenced')
    if q.startswith('std::_Bit_const'):
        return [(st, I.read(st, l, 'bool', fr, e))]
    return [(st, ('bitref', l))]


XM['std::_Bit_iterator::operator++'] = XM['std::_Bit_const_iterator::operator++'] = x_inc
XM['std::_Bit_iterator::operator--'] = XM['std::_Bit_const_iterator::operator--'] = x_inc


@xmodel('std::_Bit_reference::operator bool')
def x_bitread(I, st, fr, e, q, ol, args):
    return [(st, I.read(st, bit(st, ol, fr, e), 'bool', fr, e))]


@xmodel('std::vector::rbegin', 'std::vector::rend', 'std::vector::crbegin', 'std::vector::crend')
def x_rbegin(I, st, fr, e, q, ol, args):
    n = vsz(I, st, ol) - ONE if q.endswith('begin') else -ONE
    return [(st, ('rit', ol, n))]


@xmodel('std::map::rbegin', 'std::map::crbegin', 'std::map::rend', 'std::map::crend', 'std::set::rbegin', 'std::set::crbegin', 'std::set::rend', 'std::set::crend')
def x_mrbegin(I, st, fr, e, q, ol, args):
    ks = keys(st, ol)
    return None if ks is None else [(st, ('rxit', ol, ks[-1] if ks and q.endswith('begin') else None))]


@xmodel('std::reverse_iterator::operator*', 'std::reverse_iterator::operator->')
def x_rstar(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, None, fr, e)
    if isinstance(v, tuple) and v[:1] == ('rxit',):
        if v[2] is None or v[2] not in (keys(st, v[1]) or ()):
            return oob(I, st, fr, e, 'an iterator outside its range is dereferenced')
        l = kloc(v[1], v[2])
        return [(st, ('ref', fld(l, 'first') if st.store.get(v[1] + (SETM,)) else l))]
    if not (isinstance(v, tuple) and v[:1] == ('rit',)):
        raise AnalysisError('an unknown reverse iterator at %s' % fr.where(e))
    i, n = v[2].cval(), vsz(I, st, v[1]).cval()
    if i is None or n is None or not 0 <= i < n:
        return oob(I, st, fr, e, 'an iterator outside its range is dereferenced')
    return [(st, ('ref', v[1] + (('i', v[2]),)))]


@xmodel('std::reverse_iterator::operator++')
def x_rinc(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, None, fr, e)
    if isinstance(v, tuple) and v[:1] == ('rxit',):
        ks = [k for k in keys(st, v[1]) if v[2] is not None and k < v[2]]
        if v[2] is None:
            return oob(I, st, fr, e, 'an iterator is moved beyond its range')
        I.write(st, ol, ('rxit', v[1], ks[-1] if ks else None), fr, e)
        return [(st, v if len(args) == 1 else ('ref', ol))]
    if not (isinstance(v, tuple) and v[:1] == ('rit',)):
        raise AnalysisError('an unknown reverse iterator at %s' % fr.where(e))
    I.write(st, ol, ('rit', v[1], v[2] - ONE), fr, e)
    return [(st, v if len(args) == 1 else ('ref', ol))]


# ------------------------------------------------------------------ std::vector
@xmodel('std::vector::operator[]', 'std::vector::at')
def v_idx(I, st, fr, e, q, ol, args):
    i = args[0]
    n = vsz(I, st, ol).cval()
    c = i.cval() if isinstance(i, Poly) else None
    if n is not None and c is not None and not 0 <= c < n:
        if q.endswith('at'):
            return throw(I, st, fr, e)
        return oob(I, st, fr, e, 'element %s of %s elements is accessed' % (c, n))
    out = models.vec_idx(I, st, fr, e, q, ol, args)
    if models.elt(e) == 'bool' and not e.get('rr'):
        if '_Bit_reference' in (e.get('t') or '') or 'reference' in (e.get('t') or ''):
            return [(s, ('bitref', l[1])) for s, l in out]
        return [(s, I.read(s, l[1], 'bool', fr, e)) for s, l in out]
    return out


def materialise(I, st, loc, t):
    """explicit elements instead of a fill value"""
    n = vsz(I, st, loc).cval()
    b = st.store.get(loc + BASE)
    if n is None:
        raise AnalysisError('a container of unknown size')
    for i in range(int(n)):
        l = loc + (('i', Poly.const(i)),)
        if l not in st.store and not any(k[:len(l)] == l for k in st.store):
            if b and b[0] == 'fill' and not (isinstance(b[1], tuple) and b[1][:1] == ('agg',)):
                I.write(st, l, b[1])
            elif b and b[0] == 'fill':
                I.copy_tree(st, b[1][1], l)


@xmodel('std::vector::resize', 'std::vector::assign')
def v_resize(I, st, fr, e, q, ol, args):
    n = args[0]
    et = models.elt(e)
    if q.endswith('assign') and len(args) == 2 and not isinstance(n, Poly):
        a, b = (as_it(I, st, fr, e, args, i, str(i)) for i in range(2))
        I.drop(st, ol)
        empty(st, ol, 'vector')
        return [(s, None) for s in loop(I, st, a, b, lambda s, v: [push(I, s, fr, e, ol, v)])]
    c = n.cval() if isinstance(n, Poly) else None
    old = vsz(I, st, ol).cval()
    if c is None or old is None:
        raise AnalysisError('a container is resized to an unknown size at %s' % fr.where(e))
    if not 0 <= c <= HUGE:
        return throw(I, st, fr, e, 'length_error')
    v = aval(I, st, fr, e, args, 1, et) if len(args) > 1 else None
    materialise(I, st, ol, et)
    if q.endswith('assign'):
        I.drop(st, ol); old = 0
    b = st.store.get(ol + BASE)
    if b is None or b[0] == 'fill':
        st.store[ol + BASE] = ('fresh',)
    for i in range(int(c), int(old)):
        l = ol + (('i', Poly.const(i)),)
        I.drop(st, l)
        st.store[ol + EL] = st.store.get(ol + EL, frozenset()) - {l[-1]}
    for i in range(int(old), int(c)):
        l = ol + (('i', Poly.const(i)),)
        if v is None:
            default_init(I, st, l, et, fr, e)
            st.store[ol + EL] = st.store.get(ol + EL, frozenset()) | {l[-1]}
        else:
            I.write(st, l, v, fr, e)
    st.store[ol + (SIZE,)] = Poly.const(c)
    return [(st, None)]


def push(I, st, fr, e, ol, v):
    n = vsz(I, st, ol)
    l = ol + (('i', n),)
    store(I, st, fr, e, l, v, models.elt(e))
    st.store[ol + EL] = st.store.get(ol + EL, frozenset()) | {l[-1]}
    st.store[ol + (SIZE,)] = n + ONE
    return st


@xmodel('std::vector::push_back', 'std::vector::emplace_back')
def v_push(I, st, fr, e, q, ol, args):
    et = models.elt(e)
    if len(args) == 2 and is_pair(et):
        l = ol + (('i', vsz(I, st, ol)),)
        I.drop(st, l)
        st.store[l + BASE] = ('fresh',)
        for i, nm in enumerate(('first', 'second')):
            v = aval(I, st, fr, e, args, i)
            if isinstance(v, tuple) and v[:1] == ('ref',) and kind(targs(et)[i]) == 'num':
                v = I.read(st, v[1], targs(et)[i], fr, e)
            store(I, st, fr, e, fld(l, nm), v)
        st.store[ol + EL] = st.store.get(ol + EL, frozenset()) | {l[-1]}
        st.store[ol + (SIZE,)] = vsz(I, st, ol) + ONE
        return [(st, None)]
    if len(args) != 1:
        return None
    push(I, st, fr, e, ol, args[0])
    return [(st, None)]


@xmodel('std::make_pair')
def x_make_pair(I, st, fr, e, q, ol, args):
    loc = I.temp(fr, e)
    I.drop(st, loc)
    st.store[loc + BASE] = ('fresh',)
    for i, nm in enumerate(('first', 'second')):
        v = aval(I, st, fr, e, args, i)
        I.write(st, fld(loc, nm), v, fr, e)
    return [(st, ('agg', loc))]


@xmodel('std::reference_wrapper::get')
def x_refget(I, st, fr, e, q, ol, args):
    v = st.store.get(ol)
    if isinstance(v, tuple) and v[:1] == ('ref',):
        return [(st, v)]
    raise AnalysisError('a reference wrapper of unknown content at %s' % fr.where(e))


XM['std::pair::operator='] = lambda I, st, fr, e, q, ol, args: pair_assign(I, st, fr, e, ol, args)


def pair_assign(I, st, fr, e, ol, args):
    a = args[0]
    I.copy_tree(st, a[1], ol, fr, e)
    unwrap(I, st, ol, e.get('cls') or e['o'].get('t'))
    return [(st, ('ref', ol))]


def lookup(q):
    f = XM.get(q)
    if f is None and q.startswith('std::reference_wrapper::operator '):
        return x_refget
    return f


def ctor(I, st, fr, e, ct, loc, args):
    """constructors of std types; None: not one of them; else [states]"""
    cls = strip(e.get('cls') or e.get('t') or '')
    if ct in ('std::pair::pair', 'std::pair'):
        I.drop(st, loc)
        st.store[loc + BASE] = ('fresh',)
        if not args:
            default_init(I, st, loc, cls, fr, e)
            return [st]
        if len(args) == 1:
            I.copy_tree(st, args[0][1], loc, fr, e)
            a = targs(cls)
            if a and 'reference_wrapper' not in a[-1]:
                unwrap(I, st, loc, cls)
            return [st]
        if len(args) == 2:
            tt = targs(cls)
            for i, nm in enumerate(('first', 'second')):
                v = args[i]
                t = e['a'][i].get('t')
                if i < len(tt) and cont_of(tt[i]) and not tt[i].endswith('&') and isinstance(v, tuple) and v[:1] in (('ref',), ('agg',)):
                    I.drop(st, fld(loc, nm))
                    I.copy_tree(st, v[1], fld(loc, nm), fr, e)
                    continue
                wrapref = i < len(tt) and ('reference_wrapper' in tt[i] or tt[i].endswith('&'))
                if isinstance(v, tuple) and v and v[0] == 'ref' and (e.get('pm') or [0, 0])[i] in (1, 2, 3) and not wrapref:
                    v = I.read(st, v[1], t, fr, e)
                    if isinstance(v, tuple) and v[:1] == ('ref',) and kind(tt[i]) == 'num':
                        v = I.read(st, v[1], tt[i], fr, e)
                elif wrapref and isinstance(v, tuple) and v[:1] == ('ref',) and 'reference_wrapper' in (t or ''):
                    v = st.store.get(v[1], v)
                I.write(st, fld(loc, nm), v, fr, e)
            return [st]
        return None
    if ct in ('std::map::map', 'std::map', 'std::set', 'std::set::set'):
        a = [x for x, n in zip(args, e['a']) if not (n or {}).get('defarg')]
        if not a:
            I.drop(st, loc)
            empty(st, loc, 'set' if ct.startswith('std::set') else 'map')
            return [st]
        if len(a) == 2:
            x, y = (as_it(I, st, fr, e, args, i, str(i)) for i in range(2))
            I.drop(st, loc)
            empty(st, loc, 'set' if ct.startswith('std::set') else 'map')
            return loop(I, st, x, y, lambda s, v: add_to(I, s, fr, e, loc, v))
        if isinstance(a[0], tuple) and a[0][:1] in (('ref',), ('agg',)):
            I.copy_tree(st, a[0][1], loc, fr, e)
            return [st]
        return None
    if ct in ('std::vector::vector', 'std::vector'):
        a = [x for x, n in zip(args, e['a']) if not (n or {}).get('t', '').startswith('std::allocator') and not (n or {}).get('ct', '').startswith('std::allocator') and not (n or {}).get('defarg')]
        if len(a) >= 2 and not isinstance(a[0], Poly):
            x, y = (as_it(I, st, fr, e, args, i, str(i)) for i in range(2))
            I.drop(st, loc)
            empty(st, loc, 'vector')
            return loop(I, st, x, y, lambda s, v: [push(I, s, fr, e, loc, v)])
        if a and isinstance(a[0], Poly) and len(a) <= 2:
            c = a[0].cval()
            fillv = None
            if len(a) == 2:
                fillv = aval(I, st, fr, e, args, 1, vec_elem_type(cls))
            if c is None:
                raise AnalysisError('a container of unknown size at %s' % fr.where(e))
            if not 0 <= c <= HUGE:
                return throw(I, st, fr, e, 'length_error')
            I.drop(st, loc)
            st.store[loc + BASE] = ('fresh',)
            st.store[loc + (SIZE,)] = a[0]
            et = vec_elem_type(cls)
            for i in range(int(c)):
                l = loc + (('i', Poly.const(i)),)
                if fillv is None:
                    default_init(I, st, l, et, fr, e)
                else:
                    I.write(st, l, fillv, fr, e)
                st.store[loc + EL] = st.store.get(loc + EL, frozenset()) | {l[-1]}
            return [st]
    return None


def range_for(I, st, fr, n, cl):
    """[(state, outcome)] or None if the generic treatment will do"""
    t = strip(n['r'].get('t'))
    v = n['v']
    vl = I.varloc(fr, v['id'], v['n'])
    c = cont_of(t)
    if c in ('vector', 'list') or '[' in t:
        return None
    const = (n['r'].get('t') or '').strip().startswith('const ') or n['r'].get('cq')
    bl, el = I.temp(fr, n, 'rb'), I.temp(fr, n, 're')
    st = st.copy()
    I.drop(st, bl); I.drop(st, el)
    if c in ('map', 'set'):
        ks = keys(st, cl)
        if ks is None:
            return None
        tag = ('set',) if c == 'set' else ()
        st.store[bl] = ('xit', cl, ks[0] if ks else None) + tag
        st.store[el] = ('xit', cl, None) + tag
        starts = [st]
        it, end = It(I, fr, n, bl, 'std::_Rb_tree_iterator<x>'), It(I, fr, n, el, 'std::_Rb_tree_iterator<x>')
    else:
        starts = [st]
        its = []
        for loc, nm in ((bl, 'begin'), (el, 'end')):
            fs = [f for f in fns_of(I.p, t, nm) if not f.params]
            fs.sort(key=lambda f: f.const != bool(const))
            if not fs:
                raise AnalysisError('no %s() of %s' % (nm, t))
            nxt = []
            for s in starts:
                for s2, w in I.invoke(s, fr, dict(n, _u=(nm, I.uid(n))), fs[0], cl, []):
                    s2 = s2.copy()
                    I.drop(s2, loc)
                    if isinstance(w, tuple) and w[:1] == ('agg',):
                        I.copy_tree(s2, w[1], loc)
                    else:
                        s2.store[loc] = w
                    nxt.append(s2)
            starts = nxt
            its.append(It(I, fr, n, loc, fs[0].ret))
        it, end = its
    outs, cur = [], starts
    for _ in range(400):
        nxt = []
        for s in cur:
            for s2, go in it.ne(s, end):
                if not go:
                    outs.append((s2, None)); continue
                for s3, w in it.star(s2):
                    s3 = s3.copy()
                    I.drop(s3, vl)
                    isref = isinstance(w, tuple) and w[:1] == ('ref',)
                    if v.get('ref') and isref:
                        s3.store[vl] = w
                    elif v.get('ref') and isinstance(w, tuple) and w[:1] == ('agg',):
                        tl = I.temp(fr, n, 'rv')
                        I.drop(s3, tl)
                        I.copy_tree(s3, w[1], tl)
                        s3.store[vl] = ('ref', tl)
                    elif v.get('ref'):
                        tl = I.temp(fr, n, 'rv')
                        s3.store[tl] = w
                        s3.store[vl] = ('ref', tl)
                    else:
                        x = s3.store.get(w[1]) if isref else w
                        if isref and x is None or isinstance(x, tuple) and x[:1] == ('agg',):
                            I.copy_tree(s3, w[1], vl)
                        else:
                            I.write(s3, vl, x, fr, n)
                    for s4, o in I.stmt(s3, fr, n['b']):
                        if o is None or o == ('cont',):
                            nxt.extend(it.inc(s4))
                        elif o == ('brk',):
                            outs.append((s4, None))
                        else:
                            outs.append((s4, o))
        cur = I.dedupe(nxt)
        if not cur:
            return I.dedupe_out(outs)
    raise AnalysisError('a range of unknown length at %s' % fr.where(n))
