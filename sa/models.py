"""Models of standard-library and repo vector operations for the abstract interpreter."""
from fractions import Fraction
import absint
from terms import Poly, ZERO, ONE, is_v, akey, mono_key
from absint import (model, MODELS, PREFIX_MODELS, kind, strip, mk, at, blk, SIZE, BASE, EL, DYN, zero_of, neg, nullform,
                    hashable, vec_elem_type, _is_enum)

VT = 'ctm::math::VectorTemplate<ctm::math::VectorData<double>>'


def argt(e, i):
    a = e.get('a') or []
    return (a[i] or {}).get('t') if i < len(a) else None


def aval(I, st, fr, e, args, i, t=None):
    """value of argument i (loads through reference parameters)"""
    a = args[i]
    pm = e.get('pm') or []
    m = pm[i] if i < len(pm) else 0
    if m in (1, 2, 3) and isinstance(a, tuple) and a and a[0] == 'ref':
        return I.read(st, a[1], t or argt(e, i), fr, e)
    return a


# ------------------------------------------------------------------ smart pointers
@model('std::__shared_ptr_access::operator->', 'std::unique_ptr::operator->', 'std::__shared_ptr::get', 'std::unique_ptr::get')
def sp_arrow(I, st, fr, e, q, ol, args):
    return [(st, I.read(st, ol, e['o'].get('t') if not e.get('arrow') else 'std::shared_ptr<x>', fr, e))]


@model('std::__shared_ptr_access::operator*', 'std::unique_ptr::operator*', 'std::__shared_ptr_access::operator[]')
def sp_star(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, 'std::shared_ptr<x>', fr, e)
    return [(st, ('ref', I.deref(st, fr, v, e)))]


@model('std::__shared_ptr::operator bool', 'std::unique_ptr::operator bool', 'std::function::operator bool')
def sp_bool(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, e['o'].get('t'), fr, e)
    return [(st, neg(nullform(v)) if isinstance(v, tuple) and v and v[0] in ('null', 'sym', 'ref') else True)]


@model('std::shared_ptr::operator=', 'std::unique_ptr::operator=', 'std::function::operator=', 'std::__shared_ptr::operator=')
def sp_assign(I, st, fr, e, q, ol, args):
    a = args[0]
    t = argt(e, 0)
    if isinstance(a, tuple) and a and a[0] == 'ref' and (e.get('pm') or [0])[0] in (1, 2, 3):
        a = I.read(st, a[1], t, fr, e)
    I.write(st, ol, a, fr, e)
    return [(st, ('ref', ol))]


@model('std::__shared_ptr::reset', 'std::unique_ptr::reset')
def sp_reset(I, st, fr, e, q, ol, args):
    a = [x for x, n in zip(args, e['a']) if not (n or {}).get('defarg')]
    I.write(st, ol, a[0] if a else ('null',), fr, e)
    return [(st, None)]


@model('std::make_shared', 'std::make_unique', 'std::allocate_shared')
def make_shared(I, st, fr, e, q, ol, args):
    cls = strip(e.get('t'))
    inner = cls[cls.index('<') + 1:cls.rindex('>')]
    d = 0
    for i, ch in enumerate(inner):
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif ch == ',' and d == 0:
            inner = inner[:i]; break
    loc = (('O', I.uid(e), fr.fid, I.fresh(st, ('new', I.uid(e)))[1]),)
    c = I.p.classes.get(inner)
    if c is None:
        import absint, exact
        if absint.EXACT and exact.cont_of(inner) and (not args or len(args) == 1 and isinstance(args[0], tuple) and args[0][:1] in (('ref',), ('agg',))):
            if args:
                I.copy_tree(st, args[0][1], loc)
            else:
                exact.empty(st, loc, exact.cont_of(inner))
            return [(st, ('ref', loc))]
        st.store[loc + BASE] = ('at0', (('H', I.fresh(st, ('mks', I.uid(e)))),))
        return [(st, ('ref', loc))]
    import absint
    a0 = args[0] if len(args) == 1 else None
    if absint.EXACT and isinstance(a0, tuple) and a0[:1] in (('ref',), ('agg',)) and len(e.get('a') or []) == 1 and strip(e['a'][0].get('t', '')) == inner:
        # a copy of an object of the class
        I.copy_tree(st, a0[1], loc)
        st.store[loc + DYN] = inner
        return [(st, ('ref', loc))]
    ctors = [m for m in c['methods'] if m['ctor']]
    cands = []
    for m in ctors:
        f = I.p.fns.get(m['id'])
        if f and len(f.params) == len(args) and not f.copy and not f.move:
            cands.append(f)
    if not cands:
        # parameters with default arguments
        more = [f for f in (I.p.fns.get(m['id']) for m in ctors) if f and not f.copy and not f.move and len(f.params) > len(args) and
                all('dv' in p for p in f.params[len(args):])]
        if len(more) == 1:
            vals = [(st, list(args))]
            for p in more[0].params[len(args):]:
                vals = [(s2, a + [v]) for s, a in vals for s2, v in I.ev(s, fr, p['dv'])]
            if len(vals) == 1:
                st, args = vals[0]
                st = st.copy()
                cands = more
    st.store[loc + BASE] = ('fresh',)
    st.store[loc + DYN] = inner
    if len(cands) == 1:
        a = I.adapt(st, fr, e, cands[0], args)
        return [(s, ('ref', loc)) for s, _ in I.invoke(st, fr, e, cands[0], loc, a)]
    if not cands and not args:
        return [(st, ('ref', loc))]
    I.havoc(st, loc, I.uid(e))
    st.store[loc + DYN] = inner
    return [(st, ('ref', loc))]


@model('std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast')
def ptr_cast(I, st, fr, e, q, ol, args):
    v = aval(I, st, fr, e, args, 0)
    if q.endswith('dynamic_pointer_cast') and not (isinstance(v, tuple) and v[0] == 'null'):
        v = ('sym', ('dyncast', e.get('t'), hashable(v)))
    return [(st, v)]


@model('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof')
def std_move(I, st, fr, e, q, ol, args):
    if q == 'std::move' and len(args) > 1:
        return None
    return [(st, args[0])]


@model('std::reference_wrapper::operator*')
def refw(I, st, fr, e, q, ol, args):
    return [(st, I.read(st, ol, 'std::reference_wrapper<x>', fr, e))]


def op_eq(I, st, fr, e, q, ol, args):
    op = e.get('op') or e['n'][len('operator'):]
    vals = []
    ts = []
    if ol is not None and e.get('op'):
        vals.append(I.read(st, ol, e['o'].get('t'), fr, e)); ts.append(e['o'].get('t'))
    for i in range(len(args)):
        vals.append(aval(I, st, fr, e, args, i)); ts.append(argt(e, i))
    if len(vals) != 2:
        return None
    ks = [kind(t) for t in ts]
    if any(k == 'agg' for k in ks):
        return [(st, ('t', ('aggcmp', op, hashable(vals[0]), hashable(vals[1]), I.fresh(st, ('cmp', I.uid(e))))))]
    return [(st, I.rel(op, vals[0], vals[1]))]


for _n in ('==', '!=', '<', '>', '<=', '>='):
    for _p in ('std::operator', '__gnu_cxx::operator', 'std::_Rb_tree_const_iterator::operator', 'std::_Rb_tree_iterator::operator',
               '__gnu_cxx::__normal_iterator::operator', 'std::_List_iterator::operator', 'std::_List_const_iterator::operator'):
        MODELS[_p + _n] = op_eq


# ------------------------------------------------------------------ std::function / bind
@model('std::function::operator()', 'std::_Bind::operator()')
def fn_call(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, e['o'].get('t'), fr, e)
    return I.call_value(st, fr, e, v, args)


@model('std::bind')
def std_bind(I, st, fr, e, q, ol, args):
    vals = []
    for i, a in enumerate(args):
        n = e['a'][i]
        t = n.get('t')
        if isinstance(a, tuple) and a and a[0] == 'ref':
            k = kind(t)
            if n.get('k') == 'this' or strip(t).endswith('*') and n['k'] in ('this', 'un', 'cast'):
                # pointer prvalue materialised for the forwarding reference
                v = st.store.get(a[1])
                vals.append(v if v is not None else a)
            elif 'placeholders' in (n.get('g') or '') or 'std::_Placeholder' in (t or ''):
                vals.append(('ph', int(n['g'].rsplit('_', 1)[1])) if n.get('g') else a)
            elif k == 'agg' and not _is_enum(t):
                if 'reference_wrapper' in t:
                    vals.append(a)
                else:
                    loc = (('O', 'bind', I.uid(e), fr.fid, i),)
                    I.copy_tree(st, a[1], loc)
                    vals.append(('ref', loc))
            else:
                vals.append(I.read(st, a[1], t, fr, e))
        else:
            vals.append(a)
    return [(st, ('bind', vals[0], tuple(hashable(v) for v in vals[1:])))]


# ------------------------------------------------------------------ scalar functions
@model('std::max', 'std::min', 'fmax', 'fmin', 'std::fmax', 'std::fmin')
def std_max(I, st, fr, e, q, ol, args):
    if len(args) != 2:
        return None
    a = aval(I, st, fr, e, args, 0); b = aval(I, st, fr, e, args, 1)
    t = e.get('t')
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        return None
    out = []
    mx = q.endswith('max')
    for s, lt in I.branch(st, I.rel('<', a, b) if mx else I.rel('<', b, a)):
        v = b if lt else a
        if e.get('rr'):
            s = s.copy()
            loc = I.temp(fr, e, 'mx')
            s.store[loc] = v
            out.append((s, ('ref', loc)))
        else:
            out.append((s, v))
    return out


@model('fabs', 'abs', 'std::fabs', 'std::abs')
def fabs_(I, st, fr, e, q, ol, args):
    a = aval(I, st, fr, e, args, 0)
    if not isinstance(a, Poly):
        return None
    c = a.cval()
    if c is not None:
        return [(st, Poly.const(abs(c)))]
    na = -a
    a = min(a, na, key=akey)
    if len(a.t) == 1:
        (m, cc), = a.t.items()
        return [(st, Poly.const(abs(cc)) * Poly.atom(('app', 'fabs', Poly({m: Fraction(1)}))))]
    return [(st, Poly.atom(('app', 'fabs', a)))]


def pure_num(name):
    def f(I, st, fr, e, q, ol, args):
        vs = tuple(hashable(aval(I, st, fr, e, args, i)) for i in range(len(args)))
        if any(isinstance(v, tuple) and v and v[0] == 'agg' for v in vs):
            return None
        if name == 'pow' and len(vs) == 2 and isinstance(vs[0], Poly) and isinstance(vs[1], Poly):
            b, x = vs[0].cval(), vs[1].cval()
            if x is not None and x.denominator == 1 and 0 <= x <= 16:
                r = ONE
                for _ in range(int(x)):
                    r = r * vs[0]
                return [(st, r)]
            if x is not None and x.denominator == 1 and -16 <= x < 0 and not (b is not None and b == 0):
                r = ONE
                for _ in range(int(-x)):
                    r = r * vs[0]
                return [(st, ONE / r)]
            b, x = vs
            if len(b.t) == 1 and x.t and x.t[min(x.t, key=mono_key)] < 0:
                vs = (ONE / b, -x)      # pow(1/b, -x)
        return [(st, Poly.atom(('app', name) + vs))]
    return f


for _n in ('sqrt', 'pow', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'atan', 'floor', 'ceil', 'atan2'):
    for _p in ('', 'std::'):
        MODELS[_p + _n] = pure_num(_n)


# ------------------------------------------------------------------ std::vector
def elt(e):
    return vec_elem_type(e.get('cls') or (e['o'].get('t') if 'o' in e else ''))


@model('std::vector::operator[]', 'std::vector::at')
def vec_idx(I, st, fr, e, q, ol, args):
    i = args[0]
    if not isinstance(i, Poly):
        i = Poly.atom(('ival', hashable(i)))
    return [(st, ('ref', ol + (('i', i),)))]


@model('std::vector::size')
def vec_size(I, st, fr, e, q, ol, args):
    return [(st, vsz(I, st, ol))]


def vsz(I, st, ol):
    v = st.store.get(ol + (SIZE,))
    if v is not None:
        return v
    b = I.base_of(st, ol + (SIZE,))
    if b[0] == 'at0':
        return Poly.atom(('size', b[1][:-1]))
    return ZERO


@model('std::vector::empty')
def vec_empty(I, st, fr, e, q, ol, args):
    return [(st, I.rel('==', vsz(I, st, ol), ZERO))]


@model('std::vector::begin', 'std::vector::cbegin', 'std::vector::data')
def vec_begin(I, st, fr, e, q, ol, args):
    return [(st, ('ref', ol + (('i', ZERO),)))]


@model('std::vector::end', 'std::vector::cend')
def vec_end(I, st, fr, e, q, ol, args):
    return [(st, ('ref', ol + (('i', vsz(I, st, ol)),)))]


@model('std::vector::back')
def vec_back(I, st, fr, e, q, ol, args):
    return [(st, ('ref', ol + (('i', vsz(I, st, ol) - ONE),)))]


@model('std::vector::front')
def vec_front(I, st, fr, e, q, ol, args):
    return [(st, ('ref', ol + (('i', ZERO),)))]


@model('std::vector::push_back', 'std::vector::emplace_back')
def vec_push(I, st, fr, e, q, ol, args):
    n = vsz(I, st, ol)
    l = ol + (('i', n),)
    t = elt(e)
    v = aval(I, st, fr, e, args, 0, t) if args else zero_of(t)
    I.write(st, l, v, fr, e)
    st.store[ol + (SIZE,)] = n + ONE
    return [(st, None)]


@model('std::vector::pop_back')
def vec_pop(I, st, fr, e, q, ol, args):
    st.store[ol + (SIZE,)] = vsz(I, st, ol) - ONE
    return [(st, None)]


@model('std::vector::clear')
def vec_clear(I, st, fr, e, q, ol, args):
    I.drop(st, ol)
    st.store[ol + (SIZE,)] = ZERO
    st.store[ol + BASE] = ('fresh',)
    I.c.on_write(I, st, fr, ol, ('agg', None), e)
    return [(st, None)]


@model('std::vector::resize', 'std::vector::assign')
def vec_resize(I, st, fr, e, q, ol, args):
    n = args[0]
    if not isinstance(n, Poly):
        I.havoc(st, ol, I.uid(e))
        return [(st, None)]
    t = elt(e)
    old = vsz(I, st, ol)
    v = aval(I, st, fr, e, args, 1, t) if len(args) > 1 else zero_of(t)
    if q.endswith('assign'):
        I.drop(st, ol)
        old = ZERO
    if old == ZERO or (old.cval() == 0):
        I.drop(st, ol)
        st.store[ol + BASE] = ('fill', v)
    elif old != n:
        pass
    st.store[ol + (SIZE,)] = n
    I.c.on_write(I, st, fr, ol, ('agg', None), e)
    return [(st, None)]


@model('std::vector::operator=', 'std::map::operator=', 'std::set::operator=', 'std::list::operator=', 'std::pair::operator=')
def cont_assign(I, st, fr, e, q, ol, args):
    a = args[0]
    if isinstance(a, tuple) and a and a[0] in ('ref', 'agg'):
        I.copy_tree(st, a[1], ol, fr, e)
    else:
        I.havoc(st, ol, I.uid(e))
    return [(st, ('ref', ol))]


@model('std::vector::swap')
def vec_swap(I, st, fr, e, q, ol, args):
    swap_trees(I, st, fr, e, ol, args[0][1])
    return [(st, None)]


@model('std::swap')
def std_swap(I, st, fr, e, q, ol, args):
    swap_trees(I, st, fr, e, args[0][1], args[1][1], argt(e, 0))
    return [(st, None)]


def swap_trees(I, st, fr, e, a, b, t=None):
    if t and kind(t) != 'agg':
        va = I.read(st, a, t, fr, e); vb = I.read(st, b, t, fr, e)
        I.write(st, a, vb, fr, e); I.write(st, b, va, fr, e)
        return
    tmp = (('O', 'swaptmp', I.uid(e)),)
    I.copy_tree(st, a, tmp); I.copy_tree(st, b, a, fr, e); I.copy_tree(st, tmp, b, fr, e)
    I.drop(st, tmp)


# iterators
@model('__gnu_cxx::__normal_iterator::operator*', 'std::_Rb_tree_iterator::operator*', 'std::_Rb_tree_const_iterator::operator*',
       'std::_List_iterator::operator*', 'std::_List_const_iterator::operator*', 'std::reverse_iterator::operator*')
def it_star(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, e['o'].get('t'), fr, e)
    return [(st, ('ref', I.deref(st, fr, v, e)))]


@model('__gnu_cxx::__normal_iterator::operator->', 'std::_Rb_tree_iterator::operator->', 'std::_Rb_tree_const_iterator::operator->',
       'std::_List_iterator::operator->', 'std::_List_const_iterator::operator->', 'std::reverse_iterator::operator->')
def it_arrow(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, e['o'].get('t'), fr, e)
    return [(st, ('ref', I.deref(st, fr, v, e)) if isinstance(v, tuple) and v and v[0] == 'mit' else v)]


@model('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-')
def it_add(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, e['o'].get('t'), fr, e)
    d = args[0]
    if not isinstance(d, Poly):
        return None
    return [(st, I.ptr_add(v, d if q.endswith('+') else -d))]


@model('__gnu_cxx::operator-')
def it_sub(I, st, fr, e, q, ol, args):
    a = aval(I, st, fr, e, args, 0); b = aval(I, st, fr, e, args, 1)
    d = I.ptr_diff(a, b) if isinstance(a, tuple) and isinstance(b, tuple) else None
    return [(st, d if d is not None else mk('long', ('itdiff', hashable(a), hashable(b))))]


@model('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--',
       '__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=',
       'std::_Rb_tree_iterator::operator++', 'std::_Rb_tree_const_iterator::operator++', 'std::_Rb_tree_iterator::operator--',
       'std::_Rb_tree_const_iterator::operator--', 'std::_List_iterator::operator--', 'std::_List_iterator::operator++',
       'std::_List_const_iterator::operator++')
def it_inc(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, e['o'].get('t'), fr, e)
    op = q.rsplit('operator', 1)[1]
    post = op in ('++', '--') and len(args) == 1
    d = ONE if op in ('++', '--') else args[0]
    if op[0] == '-':
        d = -d
    n = I.ptr_add(v, d)
    I.write(st, ol, n, fr, e)
    return [(st, v if post else ('ref', ol))]


@model('__gnu_cxx::__normal_iterator::operator[]')
def it_idx(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, e['o'].get('t'), fr, e)
    return [(st, ('ref', I.ptr_elem(st, fr, v, args[0], e)))]


@model('__gnu_cxx::__normal_iterator::base')
def it_base(I, st, fr, e, q, ol, args):
    return [(st, I.read(st, ol, e['o'].get('t'), fr, e))]


# ------------------------------------------------------------------ std::map / set
def key_of(I, st, fr, e, args, i=0):
    k = aval(I, st, fr, e, args, i)
    if isinstance(k, tuple) and k and k[0] == 'agg':
        k = ('o', k[1])
    return hashable(k)


@model('std::map::operator[]', 'std::map::at')
def map_idx(I, st, fr, e, q, ol, args):
    k = key_of(I, st, fr, e, args)
    l = ol + (('kv', k),)
    els = st.store.get(ol + EL, frozenset())
    if ('kv', k) not in els:
        b = I.base_of(st, ol)
        if b[0] == 'fresh' and all(I.distinct(c, ('kv', k)) for c in els):
            vt = e.get('t')
            if kind(vt) != 'agg':
                st.store[l] = zero_of(vt)
        st.store[ol + EL] = els | {('kv', k)}
        # keys that may be equal: unknown afterwards
    return [(st, ('ref', l))]


@model('std::map::find', 'std::set::find')
def map_find(I, st, fr, e, q, ol, args):
    k = key_of(I, st, fr, e, args)
    els = st.store.get(ol + EL, frozenset())
    if ('kv', k) in els:
        return [(st, ('mit', ol, k, True))]
    b = I.base_of(st, ol)
    if b[0] == 'fresh' and all(I.distinct(c, ('kv', k)) for c in els):
        return [(st, ('mit', ol, 'END'))]
    return [(st, ('mit', ol, k, (b[1] if b[0] == 'at0' else ol, els)))]


@model('std::map::end', 'std::map::cend', 'std::set::end')
def map_end(I, st, fr, e, q, ol, args):
    return [(st, ('mit', ol, 'END'))]


@model('std::map::begin', 'std::map::cbegin', 'std::set::begin')
def map_begin(I, st, fr, e, q, ol, args):
    return [(st, ('mit', ol, ('sym', ('first', hashable(I.base_of(st, ol)), st.store.get(ol + EL, frozenset()))), (ol, 'begin')))]


@model('std::map::count', 'std::set::count')
def map_count(I, st, fr, e, q, ol, args):
    out = []
    for s, it in map_find(I, st, fr, e, q, ol, args):
        f = I.rel('==', it, ('mit', ol, 'END')) if it[2] != 'END' else True
        for s2, b in I.branch(s, f):
            out.append((s2, ZERO if b else ONE))
    return out


@model('std::map::clear', 'std::set::clear')
def map_clear(I, st, fr, e, q, ol, args):
    I.drop(st, ol)
    st.store[ol + BASE] = ('fresh',)
    I.c.on_write(I, st, fr, ol, ('agg', None), e)
    return [(st, None)]


@model('std::map::empty', 'std::set::empty')
def map_empty(I, st, fr, e, q, ol, args):
    els = st.store.get(ol + EL, frozenset())
    b = I.base_of(st, ol)
    if els:
        return [(st, False)]
    if b[0] == 'fresh':
        return [(st, True)]
    return [(st, ('t', ('empty', b[1])))]


@model('std::map::size', 'std::set::size')
def map_size(I, st, fr, e, q, ol, args):
    els = st.store.get(ol + EL, frozenset())
    b = I.base_of(st, ol)
    if b[0] == 'fresh' and not els:
        return [(st, ZERO)]
    return [(st, Poly.atom(('size', (hashable(b), els))))]


@model('std::map::insert')
def map_insert(I, st, fr, e, q, ol, args):
    r = I.c.opaque(I, st, fr, e, e.get('fn'), ol, args)
    if r is not None:
        return r
    a = args[0] if len(args) == 1 else None
    l = a[1] if isinstance(a, tuple) and a and a[0] in ('ref', 'agg') else None
    first = second = None
    for k in (I.subtree(st, l) if l else ()):
        x = k[len(l):]
        if x and isinstance(x[0], tuple) and x[0][0] == 'f' and x[0][2] == 'first' and len(x) == 1:
            first = st.store[k]
        if x and isinstance(x[0], tuple) and x[0][0] == 'f' and x[0][2] == 'second':
            second = k[:len(l) + 1]
    if first is None or second is None:
        return cont_mod(I, st, fr, e, q, ol, args)
    key = ('kv', hashable(first))
    els = st.store.get(ol + EL, frozenset())
    b = I.base_of(st, ol)
    new = b[0] == 'fresh' and all(I.distinct(c, key) for c in els)
    loc = I.temp(fr, e)
    I.drop(st, loc)
    st.store[loc + BASE] = ('fresh',)
    cls = strip(e.get('t'))
    st.store[loc + (('f', cls, 'first'),)] = ('mit', ol, hashable(first), True)
    st.store[loc + (('f', cls, 'second'),)] = True if new else ('t', ('inserted', I.fresh(st, ('ins', I.uid(e)))))
    if key not in els:
        I.copy_tree(st, second, ol + (key,), fr, e)
        st.store[ol + EL] = els | {key}
    return [(st, ('agg', loc))]


@model('std::map::erase', 'std::set::erase', 'std::vector::erase', 'std::list::erase', 'std::set::insert', 'std::list::push_back', 'std::vector::insert')
def cont_mod(I, st, fr, e, q, ol, args):
    r = I.c.opaque(I, st, fr, e, e.get('fn'), ol, args)
    if r is not None:
        return r
    I.havoc(st, ol, I.uid(e))
    I.c.on_write(I, st, fr, ol, ('agg', None), e)
    return [(st, mk(e.get('t'), ('ret', q, I.fresh(st, ('cm', I.uid(e))))) if kind(e.get('t')) != 'agg' else ('sym', ('ret', q)))]


@model('std::make_pair')
def make_pair(I, st, fr, e, q, ol, args):
    loc = I.temp(fr, e)
    I.drop(st, loc)
    cls = strip(e.get('t'))
    for i, nm in enumerate(('first', 'second')):
        v = aval(I, st, fr, e, args, i)
        I.write(st, loc + (('f', cls, nm),), v, fr, e)
    return [(st, ('agg', loc))]


# ------------------------------------------------------------------ algorithms on ranges
def rng(I, a, b):
    """(container, start, length) of iterator range [a,b) or None"""
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return None
    d = I.ptr_diff(b, a) if a[0] in ('ref', 'sym') and b[0] in ('ref', 'sym') else None
    if d is None:
        return None
    if a[0] == 'ref':
        l = a[1]
        if isinstance(l[-1], tuple) and l[-1][0] == 'i':
            return l[:-1], l[-1][1], d
        return l, ZERO, d
    return (('P', a[1]),), ZERO, d


def range_value(I, st, fr, e, c, start, n):
    """vector value of the elements [start, start+n) of container c (None if c is not a numeric vector)"""
    v = st.store.get(c)
    if isinstance(v, tuple) and v and v[0] == 'blkv':
        return None
    whole = I.read(st, c, VT, fr, e)
    if not (isinstance(whole, tuple) and whole[0] == 'vec'):
        return None
    if start == ZERO and (n == whole[2]):
        return whole
    if start == ZERO and whole[2].cval() is None and n == whole[2]:
        return whole
    return ('vec', blk(whole[1], start, n), n)


def write_range(I, st, fr, e, c, start, n, val):
    whole = st.store.get(c)
    if whole is None:
        whole = I.read(st, c, VT, fr, e)
    if start == ZERO and isinstance(whole, tuple) and whole[0] == 'vec' and whole[2] == n:
        I.write(st, c, ('vec', val[1], n), fr, e)
    elif start == ZERO and val[2] == n and isinstance(whole, tuple) and whole[0] == 'vec' and same_len(I, st, whole[2], n):
        I.write(st, c, ('vec', val[1], whole[2]), fr, e)
    else:
        I.write(st, c + (('b', start, n),), val, fr, e)


def same_len(I, st, a, b):
    return I.holds(st, I.rel('==', a, b)) is True


@model('std::copy')
def std_copy(I, st, fr, e, q, ol, args):
    vals = [aval(I, st, fr, e, args, i) for i in range(3)]
    # the iterators of a scaled view are plain iterators into the scaled vector
    vals = [st.store[v[1]] if isinstance(v, tuple) and v and v[0] == 'agg' and isinstance(st.store.get(v[1]), tuple) and st.store[v[1]][0] in ('ref', 'sym') else v
            for v in vals]
    r = rng(I, vals[0], vals[1])
    if r is None:
        return proxy_copy(I, st, fr, e, vals)
    c, start, n = r
    d = vals[2]
    dl = rng(I, d, d)
    if dl is None:
        return opaque_alg(I, st, fr, e, vals, 2)
    v = range_value(I, st, fr, e, c, start, n)
    if v is None:
        return opaque_alg(I, st, fr, e, vals, 2)
    write_range(I, st, fr, e, dl[0], dl[1], n, v)
    return [(st, I.ptr_add(d, n))]


def proxy_copy(I, st, fr, e, vals):
    """copy from a range of iterator objects wrapping an iterator of a numeric vector: the element function is the
    object's own dereference operator, applied at an arbitrary index"""
    a, b, d = vals
    fail = lambda: opaque_alg(I, st, fr, e, vals, 2)
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == 'agg' and b[0] == 'agg'):
        return fail()
    cls = strip(argt(e, 0))
    meth = [I.p.fns[m['id']] for m in I.p.classes.get(cls, {'methods': []})['methods'] if m['name'] == 'operator*' and m['id'] in I.p.fns]
    if len(meth) != 1 or meth[0].params:
        return fail()
    src = None
    for l in list(I.subtree(st, a[1])):
        v, w = st.store[l], st.store.get(b[1] + l[len(a[1]):])
        if isinstance(v, tuple) and v and v[0] in ('ref', 'sym') and l != a[1]:
            r = rng(I, v, w) if w is not None else None
            if r is None or src is not None:
                return fail()
            src = (l, r)
    if src is None:
        return fail()
    l, (c, start, n) = src
    lu = ('alg', I.uid(e))
    idx = Poly.atom(('phi', lu, 'i'))
    s0 = st.copy()
    s0.store[l] = ('ref', c + (('i', idx),))
    res = I.run(meth[0], a[1], [], s0)
    if len(res) != 1 or not isinstance(res[0][1], Poly):
        return fail()
    v = absint.unat(res[0][1], lu)
    dl = rng(I, d, d)
    if v is None or dl is None:
        return fail()
    write_range(I, st, fr, e, dl[0], dl[1], n, ('vec', v if start == ZERO else blk(v, start, n), n))
    return [(st, I.ptr_add(d, n))]


def opaque_alg(I, st, fr, e, vals, out):
    d = vals[out]
    if isinstance(d, tuple) and d and d[0] == 'ref':
        l = d[1]
        if isinstance(l[-1], tuple) and l[-1][0] == 'i':
            l = l[:-1]
        I.havoc_loc(st, fr, l, e, None, out)
    return [(st, ('sym', ('algret', I.fresh(st, ('alg', I.uid(e))))))]


@model('std::fill')
def std_fill(I, st, fr, e, q, ol, args):
    vals = [aval(I, st, fr, e, args, i) for i in range(3)]
    r = rng(I, vals[0], vals[1])
    if r is None:
        return opaque_alg(I, st, fr, e, vals, 0)
    c, start, n = r
    v = vals[2]
    t = argt(e, 2)
    if isinstance(v, Poly) and kind(t) == 'num':
        val = ('vec', v * Poly.atom(('V', ('ones',))) if v != ZERO else ZERO, n)
        if isinstance(st.store.get(c), tuple) and st.store.get(c)[0] == 'vec':
            write_range(I, st, fr, e, c, start, n, val)
            return [(st, None)]
    if start == ZERO and n == vsz(I, st, c):
        sz = vsz(I, st, c)
        I.drop(st, c)
        st.store[c + (SIZE,)] = sz
        st.store[c + BASE] = ('fill', v)
        I.c.on_write(I, st, fr, c, ('agg', None), e)
        return [(st, None)]
    return opaque_alg(I, st, fr, e, vals, 0)


@model('std::sort', 'std::unique', 'std::transform', 'std::iota', 'std::reverse', 'std::stable_sort')
def std_alg(I, st, fr, e, q, ol, args):
    r = I.c.opaque(I, st, fr, e, e.get('fn'), ol, args)
    if r is not None:
        return r
    vals = [aval(I, st, fr, e, args, i) for i in range(len(args))]
    out = 0
    if q == 'std::transform':
        out = 2 if len(args) == 4 else 3
    return opaque_alg(I, st, fr, e, vals, out)


# ------------------------------------------------------------------ strings: values only
@model('std::basic_string::operator=', )
def str_assign(I, st, fr, e, q, ol, args):
    v = aval(I, st, fr, e, args, 0)
    I.write(st, ol, v if isinstance(v, tuple) and v and v[0] in ('str', 'sym') else ('sym', ('strof', hashable(v))), fr, e)
    return [(st, ('ref', ol))]


@model('std::basic_string::operator+=', 'std::basic_string::append')
def str_append(I, st, fr, e, q, ol, args):
    old = I.read(st, ol, 'std::basic_string<char>', fr, e)
    v = aval(I, st, fr, e, args, 0)
    if old[0] == 'str' and isinstance(v, tuple) and v and v[0] == 'str':
        nv = ('str', old[1] + v[1])
    else:
        nv = ('sym', ('cat', old, hashable(v)))
    I.write(st, ol, nv, fr, e)
    return [(st, ('ref', ol))]


@model('std::operator+')
def str_plus(I, st, fr, e, q, ol, args):
    vals = [aval(I, st, fr, e, args, i) for i in range(len(args))]
    if len(vals) == 2 and all(isinstance(v, tuple) and v and v[0] == 'str' for v in vals):
        return [(st, ('str', vals[0][1] + vals[1][1]))]
    return [(st, ('sym', ('cat',) + tuple(hashable(v) for v in vals)))]


@model('std::basic_string::empty')
def str_empty(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, 'std::basic_string<char>', fr, e)
    if v[0] == 'str':
        return [(st, v[1] == '')]
    return [(st, I.rel('==', v, ('str', '')))]


@model('std::basic_string::size', 'std::basic_string::length')
def str_size(I, st, fr, e, q, ol, args):
    v = I.read(st, ol, 'std::basic_string<char>', fr, e)
    if v[0] == 'str':
        return [(st, Poly.const(len(v[1])))]
    return [(st, Poly.atom(('size', v)))]


@model('std::basic_string::c_str', 'std::basic_string::data')
def str_c(I, st, fr, e, q, ol, args):
    return [(st, I.read(st, ol, 'std::basic_string<char>', fr, e))]


# ------------------------------------------------------------------ repo vectors as linear forms
def rv(I, st, fr, e, a, t):
    """vector value of a reference/value argument"""
    if isinstance(a, tuple) and a and a[0] == 'ref':
        return I.read_vec(st, a[1], t, fr, e)
    if isinstance(a, tuple) and a and a[0] in ('vec',):
        return a
    if isinstance(a, tuple) and a and a[0] == 'blkv':
        return I.blk_read(st, a, fr, e)
    return None


def self_vec(I, st, fr, e, ol):
    return I.read_vec(st, ol, e['o'].get('t') or VT, fr, e)


@model('ctm::math::VectorTemplate::operator+=', 'ctm::math::VectorTemplate::operator-=')
def v_add(I, st, fr, e, q, ol, args):
    a = self_vec(I, st, fr, e, ol)
    b = rv(I, st, fr, e, args[0], argt(e, 0))
    if b is None:
        return None
    p = a[1] + b[1] if q.endswith('+=') else a[1] - b[1]
    I.write_vec(st, ol, ('vec', p, a[2]), fr, e)
    return [(st, ('ref', ol))]


@model('ctm::math::VectorTemplate::operator*=')
def v_mul(I, st, fr, e, q, ol, args):
    a = self_vec(I, st, fr, e, ol)
    k = aval(I, st, fr, e, args, 0)
    I.write_vec(st, ol, ('vec', a[1] * k, a[2]), fr, e)
    return [(st, ('ref', ol))]


@model('ctm::math::VectorTemplate::operator=', 'ctm::math::VectorData::operator=', 'ctm::math::VectorData::assign', 'ctm::math::VectorProxy::Block::assign')
def v_assign(I, st, fr, e, q, ol, args):
    b = rv(I, st, fr, e, args[0], argt(e, 0))
    if b is None:
        return None
    I.write_vec(st, ol, b, fr, e)
    return [(st, ('ref', ol))]


@model('ctm::math::VectorTemplate::operator+', 'ctm::math::VectorTemplate::operator-')
def v_plus(I, st, fr, e, q, ol, args):
    a = self_vec(I, st, fr, e, ol)
    b = rv(I, st, fr, e, args[0], argt(e, 0))
    if b is None:
        return None
    return [(st, ('vec', a[1] + b[1] if q.endswith('+') else a[1] - b[1], a[2]))]


@model('ctm::math::VectorTemplate::clone')
def v_clone(I, st, fr, e, q, ol, args):
    return [(st, self_vec(I, st, fr, e, ol))]


@model('ctm::math::VectorTemplate::scaled')
def v_scaled(I, st, fr, e, q, ol, args):
    a = self_vec(I, st, fr, e, ol)
    k = aval(I, st, fr, e, args, 0)
    return [(st, ('vec', a[1] * k, a[2]))]


@model('ctm::math::VectorTemplate::block')
def v_block(I, st, fr, e, q, ol, args):
    f, n = aval(I, st, fr, e, args, 0), aval(I, st, fr, e, args, 1)
    v = st.store.get(ol)
    if isinstance(v, tuple) and v and v[0] == 'blkv':
        return [(st, ('blkv', v[1], v[2] + f, n))]
    if isinstance(v, tuple) and v and v[0] == 'vec' and ol[0][0] == 'T':
        # block of a temporary (e.g. of a scaled view)
        return [(st, ('vec', blk(v[1], f, n), n))]
    return [(st, ('blkv', ol, f, n))]


@model('ctm::math::VectorTemplate::swap', 'ctm::math::VectorData::swap')
def v_swap(I, st, fr, e, q, ol, args):
    a = self_vec(I, st, fr, e, ol)
    b = rv(I, st, fr, e, args[0], argt(e, 0))
    if b is None:
        return None
    I.write(st, ol, b, fr, e)
    I.write(st, args[0][1], a, fr, e)
    return [(st, None)]


@model('ctm::math::VectorTemplate::empty')
def v_empty(I, st, fr, e, q, ol, args):
    return [(st, I.rel('==', I.vsize(st, ol, VT), ZERO))]


@model('ctm::math::VectorData::size', 'ctm::math::VectorProxy::Block::size', 'ctm::math::VectorProxy::Scale::size')
def v_size(I, st, fr, e, q, ol, args):
    return [(st, I.vsize(st, ol, VT))]


@model('ctm::math::VectorData::operator[]', 'ctm::math::VectorData::at', 'ctm::math::VectorProxy::Block::operator[]',
       'ctm::math::VectorProxy::Block::at')
def v_at(I, st, fr, e, q, ol, args):
    i = aval(I, st, fr, e, args, 0)
    if not isinstance(i, Poly):
        i = Poly.atom(('ival', hashable(i)))
    return [(st, ('ref', I.elemloc(st, ol, i)))]


@model('ctm::math::VectorProxy::Scale::operator[]', 'ctm::math::VectorProxy::Scale::at')
def v_sat(I, st, fr, e, q, ol, args):
    i = aval(I, st, fr, e, args, 0)
    a = self_vec(I, st, fr, e, ol)
    return [(st, at(a[1], i))]


@model('ctm::math::VectorData::begin', 'ctm::math::VectorData::cbegin', 'ctm::math::VectorProxy::Block::begin', 'ctm::math::VectorProxy::Block::cbegin')
def v_begin(I, st, fr, e, q, ol, args):
    return [(st, ('ref', I.elemloc(st, ol, ZERO)))]


@model('ctm::math::VectorData::end', 'ctm::math::VectorData::cend', 'ctm::math::VectorProxy::Block::end', 'ctm::math::VectorProxy::Block::cend')
def v_end(I, st, fr, e, q, ol, args):
    return [(st, ('ref', I.elemloc(st, ol, I.vsize(st, ol, VT))))]


@model('ctm::math::VectorProxy::Scale::begin', 'ctm::math::VectorProxy::Scale::cbegin')
def v_sbegin(I, st, fr, e, q, ol, args):
    a = self_vec(I, st, fr, e, ol)
    loc = (('T', fr.fid, ol, 'sc'),)
    st.store[loc] = a
    return [(st, ('ref', loc + (('i', ZERO),)))]


@model('ctm::math::VectorProxy::Scale::end', 'ctm::math::VectorProxy::Scale::cend')
def v_send(I, st, fr, e, q, ol, args):
    a = self_vec(I, st, fr, e, ol)
    loc = (('T', fr.fid, ol, 'sc'),)
    st.store[loc] = a
    return [(st, ('ref', loc + (('i', a[2]),)))]


@model('ctm::math::VectorData::resize')
def v_resize(I, st, fr, e, q, ol, args):
    n = aval(I, st, fr, e, args, 0)
    a = self_vec(I, st, fr, e, ol)
    if a[2] == n:
        return [(st, None)]
    if a[1] == ZERO:
        I.write(st, ol, ('vec', ZERO, n), fr, e)
    else:
        I.write(st, ol, ('vec', Poly.atom(('V', ('resized', a[1], n))), n), fr, e)
    return [(st, None)]


@model('ctm::math::VectorData::clear', 'ctm::math::VectorProxy::Block::clear')
def v_clear(I, st, fr, e, q, ol, args):
    a = self_vec(I, st, fr, e, ol)
    I.write_vec(st, ol, ('vec', ZERO, a[2]), fr, e)
    return [(st, None)]


@model('ctm::math::VectorTemplate::infNorm', 'ctm::math::VectorTemplate::oneNorm', 'ctm::math::VectorTemplate::euclideanNorm', 'ctm::math::VectorTemplate::euclideanNormSquare')
def v_norm(I, st, fr, e, q, ol, args):
    a = self_vec(I, st, fr, e, ol)
    p = a[1]
    n = -p
    p = min(p, n, key=akey)
    return [(st, Poly.atom(('app', 'norm', e['n'], p)))]


@model('ctm::math::VectorTemplate::dot')
def v_dot(I, st, fr, e, q, ol, args):
    a = self_vec(I, st, fr, e, ol)
    b = rv(I, st, fr, e, args[0], argt(e, 0))
    x, y = sorted((a[1], b[1]), key=akey)
    return [(st, Poly.atom(('app', 'dot', x, y)))]


@model('ctm::math::vectorMemberwiseUnaryOp', 'ctm::math::vectorMemberwiseBinaryOp')
def v_memberwise(I, st, fr, e, q, ol, args):
    return None


# ------------------------------------------------------------------ streams and other inert things
def inert(I, st, fr, e, q, ol, args):
    if e.get('rr'):
        return [(st, ('ref', ol if ol is not None else (args[0][1] if args and isinstance(args[0], tuple) and args[0][0] == 'ref' else (('G', 'stream'),))))]
    return None


for _n in ('std::basic_ostream::operator<<', 'std::operator<<'):
    MODELS[_n] = inert


LIMITS = {'int': (-2 ** 31, 2 ** 31 - 1), 'unsigned int': (0, 2 ** 32 - 1), 'long': (-2 ** 63, 2 ** 63 - 1), 'unsigned long': (0, 2 ** 64 - 1),
          'long long': (-2 ** 63, 2 ** 63 - 1), 'unsigned long long': (0, 2 ** 64 - 1), 'short': (-2 ** 15, 2 ** 15 - 1), 'unsigned short': (0, 2 ** 16 - 1)}


@model('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest')
def num_limits(I, st, fr, e, q, ol, args):
    t = LIMITS.get((e.get('t') or '').replace('const ', '').strip())
    if t is None:
        return [(st, Poly.atom(('app', q + ' ' + str(e.get('t')), (), None)))]
    return [(st, Poly.const(t[1] if q.endswith('max') else t[0]))]
