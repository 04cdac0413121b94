"""Forward abstract interpreter over the extracted program (no execution, no solver).

Domain: a finite set of abstract states per program point.  A state maps abstract locations (access paths) to
terms (linear forms / value numbers), carries an interval/null-ness environment learnt from branch conditions and a
client-defined automaton state (typestate).  Loops are iterated to a fixpoint on havocked heads; calls to functions
whose body is in the program are inlined up to a bound; everything else is an opaque event for the client."""
from fractions import Fraction
from terms import Poly, ZERO, ONE, Iv, split_form, FLIP, is_v, tstr, locstr, akey, subst
from program import AnalysisError, walk

SIZE = ('f', 'std', '#size')
BASE = ('#base',)
EL = ('#el',)
DYN = ('#dyn',)


class Budget(AnalysisError):
    pass


def strip(t):
    if t is None:
        return ''
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        elif t.endswith('&&'):
            t = t[:-2].rstrip()
        elif t.endswith('&'):
            t = t[:-1].rstrip()
        elif t.endswith(' const'):
            t = t[:-6].rstrip()
        elif t.endswith('*const'):
            t = t[:-5].rstrip()
        else:
            return t


NUM = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'double', 'float', 'short',
       'unsigned short', 'char', 'unsigned char', 'signed char', 'long double', 'size_t'}
INTS = NUM - {'double', 'float', 'long double'}
UNS = {'unsigned int', 'unsigned long', 'unsigned long long', 'unsigned short', 'unsigned char', 'size_t'}
_kind = {}


def kind(t):
    k = _kind.get(t)
    if k is None:
        k = _kind0(t)
        _kind[t] = k
    return k


#: the module of exact container models while the element-wise mode is on
EXACT = None


def is_ref(t):
    return bool(t) and t.rstrip().endswith('&')


def _kind0(t):
    t = strip(t)
    if t == 'bool':
        return 'bool'
    if t in NUM:
        return 'num'
    if t == 'void':
        return 'void'
    if t.endswith('*') or t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::__shared_ptr', 'std::nullptr_t')) or t == 'nullptr_t':
        return 'ptr'
    if EXACT and t.startswith(('ctm::math::VectorTemplate<', 'ctm::math::VectorData<')):
        return 'agg'
    if t.startswith('ctm::math::VectorTemplate<'):
        if 'VectorProxy::Block<' in t.split('<', 2)[1] + '<' or t.startswith('ctm::math::VectorTemplate<ctm::math::VectorProxy::Block<'):
            return 'blk'
        return 'vec'
    if t.startswith('ctm::math::VectorData<'):
        return 'vec'
    if t.startswith(('std::function<', 'lambda@', '(lambda', 'std::_Bind<')) or '(*)' in t or '::*)' in t:
        return 'fn'
    if t.startswith(('std::basic_string<', 'std::string')):
        return 'str'
    if t.startswith(('__gnu_cxx::__normal_iterator<', 'std::_Rb_tree_', 'std::reverse_iterator<', 'std::_List_')):
        return 'it'
    if t.startswith('std::reference_wrapper<'):
        return 'ptr'
    if t.startswith(('std::allocator', 'std::_Placeholder')):
        return 'unit'
    return 'agg'


class State:
    __slots__ = ('store', 'facts', 'auto', 'cnt', 'notes')

    def __init__(self):
        self.store = {}; self.facts = {}; self.auto = None; self.cnt = {}; self.notes = None

    def copy(self):
        s = State()
        s.store = dict(self.store); s.facts = dict(self.facts); s.auto = self.auto; s.cnt = dict(self.cnt); s.notes = self.notes
        return s

    def key(self):
        return (self.auto, frozenset(self.store.items()), frozenset(self.facts.items()))

    def note(self, msg):
        self.notes = (msg, self.notes)

    def trace(self, n=60):
        out = []
        x = self.notes
        while x and len(out) < n:
            out.append(x[0]); x = x[1]
        return list(reversed(out))


class Frame:
    __slots__ = ('fid', 'fn', 'this', 'parent', 'depth', 'site')

    def __init__(self, fid, fn, this, parent, site):
        self.fid = fid; self.fn = fn; self.this = this; self.parent = parent
        self.depth = parent.depth + 1 if parent else 0
        self.site = site

    def file(self):
        return self.fn.file if self.fn else '?'

    def where(self, node):
        f = self
        l = node.get('l') if node else None
        return self.fn.rloc(l) if self.fn else '?:%s' % l

    def stack(self, node=None):
        out = []
        f = self; n = node
        while f and f.fn:
            out.append('%s (%s)' % (f.fn.rloc(n.get('l') if n else None), f.fn.tmpl))
            n = f.site; f = f.parent
        return out


class Client:
    nan = False             # may floating values be NaN?
    max_depth = 16
    max_states = 48
    unroll = 400
    peel = True
    generic = False        # see prefer
    name_big = 0           # values with more terms than this are replaced by their value number when stored

    def call(self, I, st, fr, node, fid, obj, args):
        """before the default treatment; None or list of (state, value)"""
        return None

    def opaque(self, I, st, fr, node, fid, obj, args):
        """no body / not inlined; None (default havoc) or list of (state, value)"""
        return None

    def pure(self, I, fid, node):
        return bool(node.get('cm'))

    def prefer(self, I, f, out):
        """restrict an undecided test, given [(state, True), (state, False)]"""
        return out

    def on_write(self, I, st, fr, loc, val, node):
        pass

    def on_deref(self, I, st, fr, term, node):
        pass

    def on_uninit(self, I, st, fr, loc, node):
        pass

    def on_throw(self, I, st, fr, node):
        pass

    def on_assert(self, I, st, fr, node):
        pass

    def on_div(self, I, st, a, b, node):
        pass

    def on_branch(self, I, st, fr, node, truth):
        pass

    def no_inline(self, I, fn, node):
        return False

    def devirt(self, I, st, mid, node):
        """method id to execute for an unresolved virtual call, or None"""
        return None

    def may_throw(self, I, st, fr, node, fid):
        return False

    def loop_head(self, I, st, fr, node):
        pass

    rewrite_eq = False      # eliminate merged values determined by an equality fact

    def is_lat(self, loc):
        return is_lat(loc)

    def lat_join(self, I, loc, a, b):
        """join of two elements of a client lattice kept at loc (None: top)"""
        return a if a == b else None

    def lat_default(self, I, st, loc):
        return None


def mk(t, term):
    """a symbolic value of type t denoted by term"""
    k = kind(t)
    if k == 'num' :
        return Poly.atom(term)
    if k == 'bool':
        return ('t', term)
    if k in ('vec', 'blk'):
        return ('vec', Poly.atom(('V', term)), Poly.atom(('size', term)))
    if k == 'agg' and isinstance(term, tuple) and strip(t) and _is_enum(t):
        return Poly.atom(term)
    return ('sym', term)


ENUMS = set()


def _is_enum(t):
    return strip(t) in ENUMS


def is_unsigned_atom(a):
    return isinstance(a, tuple) and a and a[0] == 'size'


class Interp:
    def __init__(self, prog, client):
        self.p = prog
        self.c = client
        self.fids = {}
        self.uids = 0
        self.exc = []           # pending exceptional outcomes (state, exception value, node, frame)
        self.steps = 0
        self.max_steps = 3000000
        self.inlined = set()
        self.stat_states = 0
        self.opaques = {}
        self._frames = []
        self.gloops = []

    # ------------------------------------------------------------------ utilities
    def uid(self, node):
        u = node.get('_u')
        if u is None:
            self.uids += 1
            # unique over interpreters: uids are only compared inside one run
            u = node['_u'] = id(node)
        return u

    def fid(self, parent, site, extra=None):
        k = (parent, site, extra)
        v = self.fids.get(k)
        if v is None:
            v = self.fids[k] = len(self.fids) + 1
        return v

    def fresh(self, st, tag):
        n = st.cnt.get(tag, 0) + 1
        st.cnt[tag] = n
        return (tag, n)

    # ------------------------------------------------------------------ store
    def base_of(self, st, loc):
        """('at0', loc') / ('fresh',) / ('fill', v, path) describing unset content of loc"""
        for n in range(len(loc), 0, -1):
            b = st.store.get(loc[:n] + BASE)
            if b is not None:
                if b[0] == 'at0':
                    return ('at0', b[1] + loc[n:])
                if b[0] == 'fill':
                    return ('fill', b[1], loc[n:])
                return b
        r = loc[0][0]
        if r in ('P', 'R', 'G', 'H'):
            return ('at0', loc)
        return ('fresh',)

    def read(self, st, loc, t, fr=None, node=None):
        v = st.store.get(loc)
        k = kind(t)
        if v is not None:
            if k in ('vec', 'blk') and isinstance(v, tuple) and v and v[0] == 'vec':
                els = st.store.get(loc + EL)
                if els:
                    items = tuple(sorted(((c, st.store.get(loc + (c,))) for c in els), key=akey))
                    return ('vec', Poly.atom(('V', ('upd', v[1], items))), v[2])
            return v
        last = loc[-1]
        if isinstance(last, tuple) and last[0] in ('i', 'b') and len(loc) > 1:
            par = loc[:-1]
            els = st.store.get(par + EL)
            pv = st.store.get(par)
            if last[0] == 'b' and last[1] == ZERO and isinstance(pv, tuple) and pv and pv[0] == 'vec' and pv[2] == last[2]:
                return self.read(st, par, t, fr, node)
            if els and last[0] == 'b':
                for c in els:
                    if c[0] == 'b' and (par + (c,)) in st.store and nonneg(last[1] - c[1]) and nonneg(c[1] + c[2] - last[1] - last[2]) and \
                       all(x == c or self.distinct(x, last) for x in els):
                        w = st.store[par + (c,)]
                        if isinstance(w, tuple) and w[0] == 'vec':
                            return ('vec', blk(w[1], last[1] - c[1], last[2]), last[2])
            if els:
                if not all(self.distinct(c, last) for c in els):
                    items = tuple(sorted(((c, st.store.get(par + (c,))) for c in els if not self.distinct(c, last)), key=akey))
                    bt = pv if pv is not None else self.base_of(st, par)
                    return mk(t, ('sel', bt, items, last))
            if pv is not None and isinstance(pv, tuple) and pv[0] == 'vec':
                if last[0] == 'i':
                    return at(pv[1], last[1])
                return ('vec', blk(pv[1], last[1], last[2]), last[2])
            if pv is None and k in ('num',) and last[0] == 'i':
                b = self.base_of(st, par)
                if b[0] == 'at0' and self.is_vec_loc(st, par):
                    return at(Poly.atom(('V', ('init', b[1]))), last[1])
        if k == 'agg' and not _is_enum(t):
            return ('agg', loc)
        b = self.base_of(st, loc)
        if b[0] == 'fresh':
            if k == 'vec':
                return ('vec', ZERO, ZERO)
            if fr is not None:
                self.c.on_uninit(self, st, fr, loc, node)
            if k == 'ptr' and kind_sp(t):
                return ('null',)
            if k == 'str':
                return ('str', '')
            return mk(t, ('uninit', loc))
        if b[0] == 'fill':
            path = b[2]
            if len(path) == 1:
                return b[1]
            if len(path) == 2 and isinstance(b[1], tuple) and b[1][0] == 'vec' and path[1][0] == 'i':
                return at(b[1][1], path[1][1])
            if not path:
                return mk(t, ('uninit', loc))
            return mk(t, ('filled', b[1] if not isinstance(b[1], tuple) or b[1][0] != 'agg' else b[1][1], path[1:]))
        return mk(t, ('init', b[1]))

    def is_vec_loc(self, st, loc):
        return loc in self.vecs

    vecs = frozenset()

    def distinct(self, a, b):
        """provably different index components"""
        if a == b:
            return False
        if a[0] == b[0] and a[0] in ('i', 'kv'):
            x, y = a[1], b[1]
            if isinstance(x, Poly) and isinstance(y, Poly):
                c = (x - y).cval()
                return c is not None and c != 0
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and x[0] in ('str', 'ck'):
                return x != y
        if 'b' in (a[0], b[0]) and a[0] in ('i', 'b') and b[0] in ('i', 'b'):
            la = a[2] if a[0] == 'b' else ONE
            lb = b[2] if b[0] == 'b' else ONE
            return nonneg(b[1] - a[1] - la) or nonneg(a[1] - b[1] - lb)
        return False

    def write(self, st, loc, v, fr=None, node=None):
        if isinstance(v, tuple) and v and v[0] == 'agg':
            self.copy_tree(st, v[1], loc, fr, node)
            return
        if v is None:
            v = ('sym', ('void',))
        if self.c.name_big and isinstance(v, Poly) and len(v.t) > self.c.name_big:
            v = self.c.named(v)
        last = loc[-1]
        if isinstance(last, tuple) and last[0] == 'b':
            if last[2] == ZERO:
                return
            pv = st.store.get(loc[:-1])
            if last[1] == ZERO and isinstance(pv, tuple) and pv and pv[0] == 'vec' and pv[2] == last[2] and isinstance(v, tuple) and v[0] == 'vec':
                return self.write(st, loc[:-1], ('vec', v[1], last[2]), fr, node)
            for c in st.store.get(loc[:-1] + EL, ()):
                # entries inside the block are overwritten
                if c != last and c[0] in ('i', 'b') and nonneg(c[1] - last[1]) and nonneg(last[1] + last[2] - c[1] - (c[2] if c[0] == 'b' else ONE)):
                    self.drop(st, loc[:-1] + (c,))
                    st.store[loc[:-1] + EL] = st.store[loc[:-1] + EL] - {c}
        st.store[loc] = v
        els = st.store.pop(loc + EL, None)
        if els:
            for c in els:
                self.drop(st, loc + (c,))
        last = loc[-1]
        if isinstance(last, tuple) and last[0] in ('i', 'b', 'kv'):
            par = loc[:-1] + EL
            e = st.store.get(par, frozenset())
            if last not in e:
                # entries that may alias become unknown
                for c in e:
                    if not self.distinct(c, last):
                        l2 = loc[:-1] + (c,)
                        ov = st.store.get(l2)
                        if ov is not None and last[0] == 'i':
                            st.store[l2] = join_val(('alias', l2, ov, last, v), ov, v)
                st.store[par] = e | {last}
        self.c.on_write(self, st, fr, loc, v, node)

    def subtree(self, st, loc):
        n = len(loc)
        return [k for k in st.store if len(k) >= n and k[:n] == loc]

    def drop(self, st, loc):
        for k in self.subtree(st, loc):
            del st.store[k]

    def copy_tree(self, st, src, dst, fr=None, node=None):
        if src == dst:
            return
        n = len(src)
        items = [(k[n:], st.store[k]) for k in self.subtree(st, src)]
        b = self.base_of(st, src)
        dyn = st.store.get(dst + DYN)
        self.drop(st, dst)
        for s, v in items:
            if s == DYN:
                continue
            st.store[dst + s] = v
        if (dst + BASE) not in st.store:
            if b[0] == 'at0':
                st.store[dst + BASE] = b
            elif b[0] == 'fresh':
                st.store[dst + BASE] = b
            elif b[0] == 'fill' and len(b[2]) == 0:
                st.store[dst + BASE] = ('fill', b[1])
        if dyn is not None:
            st.store[dst + DYN] = dyn
        last = dst[-1]
        if isinstance(last, tuple) and last[0] in ('i', 'kv'):
            st.store[dst[:-1] + EL] = st.store.get(dst[:-1] + EL, frozenset()) | {last}
        self.c.on_write(self, st, fr, dst, ('agg', src), node)

    def havoc(self, st, loc, tag):
        dyn = st.store.get(loc + DYN)
        self.drop(st, loc)
        st.store[loc + BASE] = ('at0', (('H', self.fresh(st, ('hv', tag))),))
        if dyn is not None:
            st.store[loc + DYN] = dyn

    # ------------------------------------------------------------------ facts
    def default_iv(self, q):
        nan = self.c.nan
        lo = None
        if len(q.t) == 1:
            (m, c), = q.t.items()
            if len(m) == 1:
                a, e = m[0]
                if is_unsigned_atom(a) and c > 0:
                    lo = Fraction(0); nan = False
                elif e == 1 and isinstance(a, tuple) and a[0] == 'app' and a[1] in ('fabs', 'abs', 'norm', 'sqrt'):
                    lo = Fraction(0)
                elif e % 2 == 0 and c > 0:
                    lo = Fraction(0)
        return Iv(lo=lo, nan=nan)

    def assume(self, st, f, truth):
        """Refine st (in place) by formula f having the given truth; False if infeasible."""
        if isinstance(f, bool):
            return f == truth
        if isinstance(f, Poly):     # integer in boolean context: f != 0
            return self.assume(st, ('cmp', '==', f), not truth)
        k = f[0]
        if k == 'not':
            return self.assume(st, f[1], not truth)
        if k == 'cmp':
            op, p = f[1], f[2]
            c, kk, q = split_form(p)
            if q is None:
                r = {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
                return r == truth
            rel = op if kk > 0 else FLIP[op]
            v = -c / kk
            cur = st.facts.get(q)
            if cur is None:
                cur = self.default_iv(q)
            r = cur.meet(rel, v, not truth)
            if r is None:
                return False
            st.facts[q] = r
            if op == '==' and truth and self.c.rewrite_eq:
                self.eq_rewrite(st, p)
            return True
        if k == 'nn':
            x = f[1]
            r = self.nonnull(st, x)
            if r is not None:
                return r == truth
            st.facts[('nn', x)] = truth
            return True
        if k == 'peq':
            cur = st.facts.get(f)
            if cur is not None:
                return cur == truth
            st.facts[f] = truth
            return True
        if k == 't':
            cur = st.facts.get(f)
            if cur is not None:
                return cur == truth
            st.facts[f] = truth
            return True
        if k == 'null':
            return not truth
        if k == 'ref':
            return truth
        if k in ('sym', 'fn', 'clo', 'bind', 'fnp', 'str'):
            if k == 'sym':
                return self.assume(st, ('nn', f), truth)
            return truth
        f2 = ('t', f)
        cur = st.facts.get(f2)
        if cur is not None:
            return cur == truth
        st.facts[f2] = truth
        return True

    def eq_rewrite(self, st, p):
        """p == 0 holds: eliminate a merged value (phi/join atom) it determines from the state"""
        def ok(a):
            # inside a loop only what varies with it: values fixed at its head must not change
            return not self.gloops or a[0] == 'phi' and a[1] == self.gloops[-1]
        r = solve_eq(p, st.facts, ok)
        if r:
            mp = dict([r])
            st.facts[('sub', r[0])] = r[1]
            memo = {}
            for k, v in list(st.store.items()):
                if isinstance(v, (Poly, tuple)):
                    st.store[k] = subst(v, mp, memo)

    def holds(self, st, f):
        """True/False if decided in st, else None"""
        a = st.copy(); b = st.copy()
        ta = self.assume(a, f, True); tb = self.assume(b, f, False)
        if ta and not tb:
            return True
        if tb and not ta:
            return False
        return None

    def nonnull(self, st, v):
        if not isinstance(v, tuple):
            return None
        if v[0] == 'null':
            return False
        if v[0] in ('ref', 'clo', 'bind', 'fnp'):
            return True
        return st.facts.get(('nn', v))

    def branch(self, st, f):
        """[(state, bool)] feasible refinements"""
        if isinstance(f, bool):
            return [(st, f)]
        out = []
        a = st.copy()
        if self.assume(a, f, True):
            out.append((a, True))
        b = st.copy()
        if self.assume(b, f, False):
            out.append((b, False))
        if len(out) == 2 and self.c.generic:
            return self.c.prefer(self, f, out)
        return out

    # ------------------------------------------------------------------ merging
    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen = {}
        out = []
        for s in states:
            k = s.key()
            if k not in seen:
                seen[k] = 1
                out.append(s)
        if len(out) > self.c.max_states:
            groups = {}
            for s in out:
                groups.setdefault(s.auto, []).append(s)
            out = []
            for a, g in groups.items():
                # join the states whose facts differ least: simply all of one automaton state, in two halves
                j = g[0]
                for s in g[1:]:
                    j = self.join(j, s)
                out.append(j)
        return out

    def join(self, a, b):
        r = State()
        r.auto = a.auto; r.notes = a.notes
        for k in set(a.cnt) | set(b.cnt):
            r.cnt[k] = max(a.cnt.get(k, 0), b.cnt.get(k, 0))
        n = self.fresh(r, 'join')
        rep = {}
        for k in set(a.store) | set(b.store):
            va = a.store.get(k); vb = b.store.get(k)
            if va == vb:
                r.store[k] = va
            elif k[-1:] == EL:
                r.store[k] = (va or frozenset()) | (vb or frozenset())
            elif self.c.is_lat(k):
                v = self.c.lat_join(self, k, va if va is not None else self.c.lat_default(self, a, k),
                                    vb if vb is not None else self.c.lat_default(self, b, k))
                if v is not None:
                    r.store[k] = v
            elif k[-1:] in (BASE, DYN):
                if va is None or vb is None:
                    r.store[k] = va if vb is None else vb
                else:
                    r.store[k] = ('at0', (('H', ('join', n, k)),))
            else:
                g = (congr_key(va), congr_key(vb))
                if g[0] is not None and g[1] is not None:
                    r.store[k] = join_val(('join', n, rep.setdefault(g, k)), va, vb)
                else:
                    r.store[k] = join_val(('join', n, k), va, vb)
        for k in set(a.facts) & set(b.facts):
            fa, fb = a.facts[k], b.facts[k]
            if fa == fb:
                r.facts[k] = fa
            elif isinstance(fa, Iv):
                r.facts[k] = fa.hull(fb)
        return r

    # ------------------------------------------------------------------ entry point
    def run(self, fn, this, args, st=None, auto=None):
        """Analyse fn with the given this location and argument values; returns [(state, retval)];
        exceptional exits are in self.exc."""
        if st is None:
            st = State(); st.auto = auto
        site = {'k': 'root', 'l': None}
        self.exc = []
        return self.invoke(st, None, site, fn, this, args)

    def invoke(self, st, fr, node, fn, this, args, captures=None):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('analysis budget exhausted in ' + fn.id)
        fid = self.fid(fr.fid if fr else 0, self.uid(node), fn.id)
        nf = Frame(fid, fn, this, fr, node)
        self.inlined.add(fn.id)
        st = st.copy()
        for p, a in zip(fn.params, args):
            loc = (('L', fid, p['id']),)
            self.drop(st, loc)
            if isinstance(a, tuple) and a and a[0] == 'agg' and not p['ref']:
                self.copy_tree(st, a[1], loc, nf, node)
            elif isinstance(a, tuple) and a and a[0] == 'agg':
                st.store[loc] = ('ref', a[1])
            else:
                st.store[loc] = a
        if captures:
            for cid, kindc, val in captures:
                if cid == 'this':
                    nf.this = val
                    continue
                loc = self.varloc(nf, cid, None)
                if kindc == 'ref':
                    st.store[loc] = ('cap', val)
                elif isinstance(val, tuple) and val and val[0] == 'agg':
                    st.store[loc] = ('cap', val[1])
                else:
                    st.store[loc] = val
        outs = []
        if fn.ctor:
            for s in self.ctor_inits(st, nf, fn):
                outs.extend(self.stmt(s, nf, fn.body) if fn.body else [(s, None)])
        else:
            outs = self.stmt(st, nf, fn.body)
        res = []
        for s, o in outs:
            v = o[1] if o and o[0] == 'ret' else None
            if isinstance(v, tuple) and v and v[0] == 'agg' and v[1][0][0] in ('L', 'T') and v[1][0][1] == fid:
                t = (('T', fr.fid if fr else 0, self.uid(node), 'r'),)
                s = s.copy()
                self.copy_tree(s, v[1], t)
                v = ('agg', t)
            s = self.pop_frame(s, fid)
            res.append((s, v))
        for i, e in enumerate(self.exc):
            pass
        return self.dedupe_vals(res)

    def pop_frame(self, s, fid):
        ks = [k for k in s.store if k[0][0] in ('L', 'T') and k[0][1] == fid]
        if ks:
            s = s.copy()
            for k in ks:
                del s.store[k]
        return s

    def dedupe_vals(self, res):
        if len(res) < 2:
            return res
        seen = set(); out = []
        for s, v in res:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k); out.append((s, v))
        if len(out) > self.c.max_states:
            groups = {}
            for s, v in out:
                groups.setdefault((s.auto, v), []).append(s)
            if len(groups) > self.c.max_states:
                groups2 = {}
                for (a, v), g in groups.items():
                    groups2.setdefault(a, []).append((v, g))
                out = []
                for a, l in groups2.items():
                    v0, g0 = l[0]
                    j = g0[0]
                    for v, g in l:
                        for s in g:
                            j = self.join(j, s)
                        if v != v0:
                            v0 = join_val(self.fresh(j, 'joinv'), v0, v)
                    out.append((j, v0))
            else:
                out = []
                for (a, v), g in groups.items():
                    j = g[0]
                    for s in g[1:]:
                        j = self.join(j, s)
                    out.append((j, v))
        return out

    def ctor_inits(self, st, fr, fn):
        states = [st]
        for ini in fn.inits:
            nxt = []
            for s in states:
                if 'field' in ini:
                    loc = fr.this + (('f', fn.cls, ini['field']),)
                    if EXACT and is_ref(ini.get('ft')) and ini['init'] is not None:
                        for s2, l in self.lv(s, fr, ini['init']):
                            s2 = s2.copy()
                            s2.store[loc] = ('ref', l)
                            nxt.append(s2)
                        continue
                    nxt.extend(self.init_loc(s, fr, loc, ini['init'], ini.get('ft')))
                elif 'base' in ini or ini.get('delegating'):
                    nxt.extend(self.init_loc(s, fr, fr.this, ini['init'], None, base=True))
                else:
                    nxt.append(s)
            states = self.dedupe(nxt)
        return states

    # ------------------------------------------------------------------ statements
    def stmt(self, st, fr, n):
        """returns [(state, outcome)], outcome None | ('ret', v) | ('brk',) | ('cont',)"""
        if n is None:
            return [(st, None)]
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('analysis budget exhausted in %s' % (fr.fn.id if fr.fn else '?'))
        m = getattr(self, 's_' + n['k'], None)
        if m is None:
            raise AnalysisError('statement kind %s at %s not supported' % (n['k'], fr.where(n)))
        return m(st, fr, n)

    def s_block(self, st, fr, n):
        return self.seq(st, fr, n['b'])

    def seq(self, st, fr, stmts):
        states = [st]
        outs = []
        dtors = []
        nexc = len(self.exc)
        for i, x in enumerate(stmts):
            nxt = []
            if x is None:
                continue
            if x['k'] == 'decl':
                for v in x['v']:
                    if not v.get('ref') and not v.get('static'):
                        d = self.dtor_of(v['t'])
                        if d:
                            dtors.append((v, d))
            for s in states:
                for s2, o in self.stmt(s, fr, x):
                    if o is None:
                        nxt.append(s2)
                    else:
                        outs.append((s2, o))
            states = self.dedupe(nxt)
            if not states:
                break
        res = outs + [(s, None) for s in states]
        if dtors:
            for v, d in reversed(dtors):
                r2 = []
                loc = self.varloc(fr, v['id'], v['n'])
                for s, o in res:
                    if any(k[:1] == loc for k in s.store):
                        for s3, _ in self.invoke(s, fr, v, d, loc, []):
                            r2.append((s3, o))
                    else:
                        r2.append((s, o))
                res = r2
                # exceptional exits of this block run the destructors too
                for i in range(nexc, len(self.exc)):
                    s, ev, en, ef = self.exc[i]
                    if any(k[:1] == loc for k in s.store):
                        save = self.exc; self.exc = []
                        rr = self.invoke(s, fr, v, d, loc, [])
                        self.exc = save
                        if rr:
                            self.exc[i] = (rr[0][0], ev, en, ef)
        return self.dedupe_out(res)

    def dtor_of(self, t):
        c = self.p.classes.get(strip(t))
        if not c:
            return None
        for m in c['methods']:
            if m['dtor'] and not m['implicit']:
                f = self.p.fns.get(m['id'])
                if f and f.body and f.body.get('b'):
                    return f
        return None

    def dedupe_out(self, res):
        if len(res) < 2:
            return res
        by = {}
        for s, o in res:
            by.setdefault(o, []).append(s)
        if len(by) > self.c.max_states:
            return self.dedupe_vals_out(by)
        out = []
        for o, ss in by.items():
            for s in self.dedupe(ss):
                out.append((s, o))
        return out

    def dedupe_vals_out(self, by):
        out = []
        rets = []
        for o, ss in by.items():
            if o and o[0] == 'ret':
                rets.extend((s, o[1]) for s in ss)
            else:
                out.extend((s, o) for s in self.dedupe(ss))
        out.extend((s, ('ret', v)) for s, v in self.dedupe_vals(rets))
        return out

    def s_expr(self, st, fr, n):
        return [(s, None) for s, _ in self.dedupe_vals([(s, None) for s, _ in self.ev(st, fr, n['e'])])]

    def s_null(self, st, fr, n):
        return [(st, None)]

    def s_label(self, st, fr, n):
        return self.stmt(st, fr, n.get('s'))

    def s_unkstmt(self, st, fr, n):
        return [(st, None)]

    def s_decl(self, st, fr, n):
        states = [st]
        for v in n['v']:
            nxt = []
            for s in states:
                nxt.extend(self.declare(s, fr, v))
            states = self.dedupe(nxt)
        return [(s, None) for s in states]

    def declare(self, st, fr, v):
        loc = self.varloc(fr, v['id'], v['n'])
        if v.get('static'):
            s = st.copy()
            s.store[loc] = ('cap', (('G', 'static:' + v['n'] + ':' + (fr.fn.id if fr.fn else '')),))
            return [s]
        s = st.copy()
        self.drop(s, loc)
        if v.get('ref'):
            out = []
            for s2, l in self.lv(s, fr, v['init']):
                s2 = s2.copy()
                s2.store[loc] = ('ref', l)
                out.append(s2)
            return out
        if 'init' not in v:
            return [s]
        return self.init_loc(s, fr, loc, v['init'], v['t'])

    def init_loc(self, st, fr, loc, e, t, base=False):
        """initialise loc from expression e"""
        if e is None:
            return [st]
        while e['k'] == 'cast' and e.get('ck') in ('NoOp', 'ConstructorConversion'):
            e = e['e']
        k = kind(t) if t else ('agg' if base else kind(e.get('t')))
        if e['k'] == 'ctor' and (base or (k == 'agg' and not _is_enum(e.get('t')))):
            return [s for s, _ in self.construct(st, fr, loc, e, base)]
        if e['k'] == 'ilist' and (k == 'agg' or '[' in (t or '')) and not (t and _is_enum(t)):
            cls = e.get('cls')
            states = [st]
            cr = self.p.classes.get(cls) if cls else None
            for i, a in enumerate(e['a']):
                nxt = []
                for s in states:
                    if cr and i < len(cr['fields']):
                        l2 = loc + (('f', cls, cr['fields'][i]['name']),)
                    else:
                        l2 = loc + (('i', Poly.const(i)),)
                    nxt.extend(self.init_loc(s, fr, l2, a, a.get('t')))
                states = nxt
            if 'asize' in e:
                for s in states:
                    s.store[loc + (SIZE,)] = Poly.const(e['asize'])
                    s.store[loc + BASE] = ('fill', ZERO)
            return states
        out = []
        for s, v in self.ev(st, fr, e):
            s = s.copy()
            if v is None:
                v = mk(t or e.get('t'), ('unk', self.fresh(s, ('unk', self.uid(e)))))
            v = self.conv(v, t or e.get('t'))
            self.write(s, loc, v, fr, e)
            out.append(s)
        return out

    def conv(self, v, t):
        """adapt a value to the type of the place it is stored to"""
        k = kind(t)
        if k == 'bool' and isinstance(v, Poly):
            c = v.cval()
            if c is not None:
                return c != 0
            return ('not', ('cmp', '==', v))
        if k == 'bool' and isinstance(v, tuple) and v and v[0] in ('ref', 'sym', 'null') :
            return ('nn', v) if v[0] == 'sym' else v[0] == 'ref'
        if k == 'num' and isinstance(v, bool):
            return ONE if v else ZERO
        return v

    def s_ret(self, st, fr, n):
        e = n.get('e')
        if e is None:
            return [(st, ('ret', None))]
        if fr.fn and fr.fn.retref:
            return [(s, ('ret', ('ref', l))) for s, l in self.lv(st, fr, e)]
        if kind(e.get('t')) == 'agg' and not _is_enum(e.get('t')):
            out = []
            for s, l in self.lv(st, fr, e):
                out.append((s, ('ret', ('agg', l))))
            return out
        rt = fr.fn.ret if fr.fn else e.get('t')
        return self.dedupe_out([(s, ('ret', self.conv(v, rt))) for s, v in self.ev(st, fr, e)])

    def s_brk(self, st, fr, n):
        return [(st, ('brk',))]

    def s_cont(self, st, fr, n):
        return [(st, ('cont',))]

    def s_if(self, st, fr, n):
        states = [st]
        if 'init' in n and n['init']:
            states = [s for s, o in self.stmt(st, fr, n['init'])]
        if 'cv' in n:
            states = [s2 for s in states for s2 in self.declare(s, fr, n['cv'])]
        outs = []
        ts = []; fs = []
        for s in states:
            for s2, b in self.cond(s, fr, n['c']):
                (ts if b else fs).append(s2)
        for s in self.dedupe(ts):
            self.c.on_branch(self, s, fr, n, True)
            outs.extend(self.stmt(s, fr, n['t']))
        for s in self.dedupe(fs):
            self.c.on_branch(self, s, fr, n, False)
            if n.get('e'):
                outs.extend(self.stmt(s, fr, n['e']))
            else:
                outs.append((s, None))
        return self.dedupe_out(outs)

    def s_switch(self, st, fr, n):
        outs = []
        body = n['b']['b'] if n['b']['k'] == 'block' else [n['b']]
        labels = []     # (index, value expr or None)
        flat = []
        for x in body:
            while x is not None and x['k'] in ('case', 'default'):
                labels.append((len(flat), x.get('v') if x['k'] == 'case' else None, x.get('v2')))
                x = x['s']
            flat.append(x)
        states = [st]
        if 'cv' in n:
            states = self.declare(st, fr, n['cv'])
        for s0 in states:
            for s, v in self.ev(s0, fr, n['c']):
                pend = [s]
                for idx, ve, v2 in labels:
                    if ve is None:
                        continue
                    np_ = []
                    for s1 in pend:
                        for s2, cv in self.ev(s1, fr, ve):
                            for s3, b in self.branch(s2, self.rel('==', v, cv)):
                                if b:
                                    outs.extend(self.seq(s3, fr, flat[idx:]))
                                else:
                                    np_.append(s3)
                    pend = np_
                d = [i for i, ve, _ in labels if ve is None]
                for s1 in pend:
                    if d:
                        outs.extend(self.seq(s1, fr, flat[d[0]:]))
                    else:
                        outs.append((s1, None))
        return self.dedupe_out([(s, None if o == ('brk',) else o) for s, o in outs])

    def s_case(self, st, fr, n):
        return self.stmt(st, fr, n['s'])

    s_default = s_case

    def s_try(self, st, fr, n):
        save = self.exc
        self.exc = []
        outs = self.stmt(st, fr, n['b'])
        pend = self.exc
        self.exc = save
        for s, ev, en, ef in pend:
            et = ev[1] if isinstance(ev, tuple) and ev and ev[0] == 'exc' else None
            remaining = [s]
            for h in n['h']:
                if not remaining:
                    break
                ht = h.get('t')
                m = self.catches(et, ht)
                if m is False:
                    continue
                for s1 in remaining:
                    s2 = s1.copy()
                    if 'v' in h and h['v']:
                        s2.store[self.varloc(fr, h['v']['id'], h['v']['n'])] = ('ref', (('P', ('exc',)),)) if h['v'].get('ref') else ('sym', ('exc',))
                    nexc = len(self.exc)
                    for o in self.stmt(s2, fr, h['b']):
                        outs.append(o)
                if m is True:
                    remaining = []
            for s1 in remaining:
                self.exc.append((s1, ev, en, ef))
        return self.dedupe_out(outs)

    def catches(self, et, ht):
        if not ht:
            return True
        ht = strip(ht)
        if et is None:
            return None
        et = strip(et)
        if et == ht:
            return True
        if self.p.classes.get(et):
            if self.p.is_a(et, ht):
                return True
            return None if ht.startswith('std::') else False
        if ht == 'std::exception':
            return None
        return False

    # ------------------------------------------------------------------ loops
    def has_phi(self, x, uid):
        return _has_phi(x, uid)

    def purge(self, st, uid):
        bad = [k for k in st.facts if _has_phi(k, uid)]
        for k in bad:
            del st.facts[k]

    def s_while(self, st, fr, n):
        return self.loop(st, fr, n, None, n['c'], None, n['b'], False)

    def s_do(self, st, fr, n):
        return self.loop(st, fr, n, None, n['c'], None, n['b'], True)

    def s_for(self, st, fr, n):
        states = [st]
        if n.get('init'):
            states = [s for s, o in self.stmt(st, fr, n['init'])]
        outs = []
        for s in states:
            outs.extend(self.loop(s, fr, n, None, n.get('c'), n.get('inc'), n['b'], False))
        return self.dedupe_out(outs)

    def s_rfor(self, st, fr, n):
        outs = []
        for s, cl in self.lv(st, fr, n['r']):
            r = EXACT.range_for(self, s, fr, n, cl) if EXACT else None
            outs.extend(self.range_for(s, fr, n, cl) if r is None else r)
        return self.dedupe_out(outs)

    def range_for(self, st, fr, n, cl):
        t = strip(n['r'].get('t'))
        v = n['v']
        vl = self.varloc(fr, v['id'], v['n'])
        if kind(t) in ('vec', 'blk'):
            size = self.vsize(st, cl, t)
            elt = 'double'
        elif t.startswith('std::map<') or t.startswith('std::set<') or t.startswith('std::list<'):
            size = st.store.get(cl + (SIZE,)) if EXACT and t.startswith('std::list<') else None; elt = None
        else:
            size = self.read(st, cl + (SIZE,), 'unsigned long', fr, n)
            elt = None
        uid = self.uid(n)

        def bind(s, idx):
            s = s.copy()
            self.drop(s, vl)
            if t.startswith('std::map<'):
                src = cl + (('mp', idx),)
            elif t.startswith('std::set<'):
                src = cl + (('kv', idx),)
            else:
                src = cl + (('i', idx),)
            if kind(t) == 'blk':
                src = self.elemloc(s, cl, idx, t)
            if v.get('ref'):
                s.store[vl] = ('ref', src)
                return [s]
            vt = v['t']
            s2 = s
            if 'init' in v and v['init'] and v['init'].get('k') == 'ctor' and kind(vt) == 'agg' and not (src[-1][0] == 'mp'):
                self.copy_tree(s2, src, vl)
                return [s2]
            val = self.read(s2, src, vt, fr, n)
            self.write(s2, vl, val, fr, n)
            return [s2]
        c = size.cval() if isinstance(size, Poly) else None
        if c is not None and c <= self.c.unroll:
            states = [st]; outs = []
            for i in range(int(c)):
                nxt = []
                for s in states:
                    for s1 in bind(s, Poly.const(i)):
                        for s2, o in self.stmt(s1, fr, n['b']):
                            if o is None or o == ('cont',):
                                nxt.append(s2)
                            elif o == ('brk',):
                                outs.append((s2, None))
                            else:
                                outs.append((s2, o))
                states = self.dedupe(nxt)
            return self.dedupe_out(outs + [(s, None) for s in states])
        # unknown size: generic iteration
        s0 = st.copy()
        lu = ('rfor', uid, fr.fid, self.fresh(s0, ('loop', uid, fr.fid))[1])
        if isinstance(size, Poly) and kind(t) in ('vec', 'blk'):
            r = self.vector_loop(s0, fr, n, lu, lambda s, phi: bind(s, phi), n['b'], size)
            if r is not None:
                return r
        idx = Poly.atom(('phi', lu, 'idx')) if not t.startswith('std::map<') and not t.startswith('std::set<') else ('sym', ('phi', lu, 'key'))

        def it(s):
            s = s.copy()
            if isinstance(idx, Poly):
                self.assume(s, ('cmp', '<=', -idx), True)
                if isinstance(size, Poly):
                    if not self.assume(s, ('cmp', '<', idx - size), True):
                        return []
            return bind(s, idx)
        return self.generic_loop(s0, fr, n, lu, it, n['b'], None, zero=True)

    def loop(self, st, fr, n, init, c, inc, body, post):
        uid = self.uid(n)
        outs = []
        st = st.copy()
        lu = ('loop', uid, fr.fid, self.fresh(st, ('loop', uid, fr.fid))[1])
        cvd = n.get('cv')

        def test(s):
            """[(state, bool)]"""
            if cvd:
                return [x for s2 in self.declare(s, fr, cvd) for x in self.cond(s2, fr, c)]
            if c is None:
                return [(s, True)]
            return self.cond(s, fr, c)

        counted = getattr(self.c, 'exact_loops', False) or c is not None and any(x.get('k') == 'bin' and x.get('op') in ('<', '<=', '>', '>=', '!=') or
                                        (x.get('k') == 'call' and x.get('op') in ('!=', '<')) for x in walk(c))
        # elementwise vector loops
        if not post and inc is not None:
            r = self.try_vector_for(st, fr, n, lu, c, inc, body)
            if r is not None:
                return r

        def finish(s, o):
            if o == ('brk',):
                outs.append((s, None))
            else:
                outs.append((s, o))

        def run_inc(ss):
            if inc is None:
                return ss
            return self.dedupe([s2 for s in ss for s2, _ in self.ev(s, fr, inc)])

        # phase 1: as long as the test is decided, iterate exactly
        cur = [st]
        first = True
        iters = 0
        pend = []           # states which need the generic treatment (at loop head)
        while cur:
            iters += 1
            nxt = []
            for s in cur:
                self.c.loop_head(self, s, fr, n)
                if post and first:
                    br = [(s, True)]; decided = True
                else:
                    br = test(s)
                    decided = len(br) == 1 or len({b for _, b in br}) == 1
                if decided and not br[0][1]:
                    outs.extend((s2, None) for s2, _ in br)
                    continue
                if not decided and iters > (getattr(self.c, "peel_to", 1) if self.c.peel else 0):
                    pend.append(s)
                    continue
                if not counted and iters > 1:
                    pend.append(s)
                    continue
                for s2, b in br:
                    if not b:
                        outs.append((s2, None)); continue
                    for s3, o in self.stmt(s2, fr, body):
                        if o is None or o == ('cont',):
                            nxt.append(s3)
                        else:
                            finish(s3, o)
            first = False
            cur = run_inc(self.dedupe(nxt))
            if iters > self.c.unroll:
                if cur and getattr(self.c, 'exact_loops', False) and self.c.unroll >= 64 and hasattr(self.c, 'on_endless'):
                    self.c.on_endless(self, cur[0], fr, n)
                else:
                    pend.extend(cur)
                cur = []
        if not pend:
            return self.dedupe_out(outs)

        def it(s):
            self.c.loop_head(self, s, fr, n)
            res = []
            for s2, b in test(s):
                if b:
                    res.append(s2)
                else:
                    exits.append(s2)
            return self.dedupe(res)
        # group pending heads: join per automaton state
        groups = {}
        for s in pend:
            groups.setdefault(s.auto, []).append(s)
        for a, g in groups.items():
            j = g[0]
            for s in g[1:]:
                j = self.join(j, s)
            exits = []
            r = self.generic_loop(j, fr, n, lu, it, body, inc, zero=False, exits=exits)
            outs.extend(r)
        return self.dedupe_out(outs)

    def generic_loop(self, st, fr, n, lu, enter, body, inc, zero, exits=None):
        self.gloops.append(lu)
        try:
            return self.generic_loop1(st, fr, n, lu, enter, body, inc, zero, exits)
        finally:
            self.gloops.pop()

    def generic_loop1(self, st, fr, n, lu, enter, body, inc, zero, exits=None):
        """Fixpoint with havocked written locations.  enter(state) -> states entering the body (pushes loop exits to
        `exits` itself).  zero: the loop may also be left at the head at any time (range-for)."""
        W = set()
        lab = {}            # location -> congruence label (optimistic value numbering of the loop phis)
        nlab = 0
        lat = {}            # location -> element of a client lattice assumed at the head
        save_exc = self.exc
        entry = st
        for attempt in range(24):
            heads = {}
            work = [entry.auto]
            outs = []
            self.exc = []
            if exits is not None:
                del exits[:]
            newW = set()
            relab = False
            allbacks = []
            ok = True
            while work and ok:
                a = work.pop()
                if a in heads:
                    continue
                h = entry.copy()
                h.auto = a
                rep = {}
                for l in sorted(W, key=akey) if lab else W:
                    g = congr_key(entry.store.get(l))
                    if g is not None:
                        rep[l] = rep.setdefault((g, lab.get(l, 0)), l)
                for l in W:
                    self.phi(h, l, lu, entry, rep.get(l, l))
                for l, v in lat.items():
                    if v is None:
                        h.store.pop(l, None)
                    else:
                        h.store[l] = v
                self.purge(h, lu)
                heads[a] = h
                if len(heads) > 60:
                    raise Budget('too many automaton states at loop %s' % fr.where(n))
                if zero:
                    outs.append((h.copy(), None))
                backs = []
                for s in enter(h.copy()):
                    for s3, o in self.stmt(s, fr, body):
                        if o is None or o == ('cont',):
                            backs.append(s3)
                        elif o == ('brk',):
                            outs.append((s3, None))
                        else:
                            outs.append((s3, o))
                backs = self.dedupe(backs)
                if inc is not None:
                    backs = self.dedupe([s2 for s in backs for s2, _ in self.ev(s, fr, inc)])
                for b in backs:
                    ch = self.changed(h, b, fr)
                    ch -= W
                    for l in [l for l in ch if self.c.is_lat(l)]:
                        ch.discard(l)
                        hv, bv = h.store.get(l), b.store.get(l)
                        v = self.c.lat_join(self, l, hv if hv is not None else self.c.lat_default(self, h, l),
                                            bv if bv is not None else self.c.lat_default(self, b, l))
                        if lat.get(l, hv) != v:
                            lat[l] = v
                            relab = True
                    if ch:
                        newW |= ch
                    if b.auto not in heads:
                        work.append(b.auto)
                allbacks.extend(backs)
            # split congruence classes by the values arriving at the back edges
            cls = {}
            for l in W | newW:
                g = congr_key(entry.store.get(l))
                if g is not None:
                    cls.setdefault((g, lab.get(l, 0)), []).append(l)
            for (g, lb), ls in cls.items():
                if len(ls) < 2:
                    continue
                sub = {}
                for l in sorted(ls, key=akey):
                    sub.setdefault(tuple(congr_key(b.store.get(l)) for b in allbacks), []).append(l)
                if len(sub) > 1:
                    for g2 in list(sub.values())[1:]:
                        nlab += 1
                        for l in g2:
                            lab[l] = nlab
                            if l in W:
                                relab = True
            if not newW and not relab:
                break
            W |= newW
        else:
            raise Budget("no fixpoint at loop %s: %s %s" % (fr.where(n), [locstr(l) for l in newW], relab))
        ex = self.exc
        self.exc = save_exc
        self.exc.extend(ex)
        if exits is not None:
            outs.extend((s, None) for s in exits)
        return self.dedupe_out(outs)

    def changed(self, h, b, fr):
        W = set()
        for k, v in b.store.items():
            if h.store.get(k, None) != v:
                W.add(k)
        for k in h.store:
            if k not in b.store:
                W.add(k)
        return {k for k in W if not (k[0][0] == 'T')}

    def phi(self, h, loc, lu, entry, rep=None):
        last = loc[-1]
        if last == '#base':
            h.store[loc] = ('at0', (('H', ('phi', lu, loc)),))
            return
        if last == '#el':
            return
        if last == '#dyn':
            h.store.pop(loc, None)
            return
        if isinstance(last, tuple) and last[0] in ('i', 'b', 'kv'):
            # element writes in a loop: the container's content becomes unknown
            par = loc[:-1]
            v = h.store.get(par)
            els = h.store.pop(par + EL, None)
            for c in (els or ()):
                self.drop(h, par + (c,))
            self.drop_exact(h, loc)
            if isinstance(v, tuple) and v and v[0] == 'vec':
                h.store[par] = ('vec', Poly.atom(('V', ('phi', lu, par))), v[2])
            else:
                h.store[par + BASE] = ('at0', (('H', ('phi', lu, par)),))
            return
        v = h.store.get(loc)
        if v is None:
            # first written inside the loop: unknown there
            h.store.pop(loc, None)
            for n in range(len(loc), 0, -1):
                if (loc[:n] + BASE) in h.store:
                    break
            b = self.base_of(h, loc)
            if b[0] == 'fresh':
                return      # local of the body
            h.store[loc] = ('lazyphi', lu, loc)
            del h.store[loc]
            h.store[loc + BASE] = ('at0', (('H', ('phi', lu, loc)),))
            return
        h.store[loc] = phi_val(('phi', lu, rep or loc), v)

    def drop_exact(self, h, loc):
        h.store.pop(loc, None)

    # --- elementwise loops -> vector linear forms
    def try_vector_for(self, st, fr, n, lu, c, inc, body):
        # induction variable: the (single) variable incremented by inc
        if c is None or inc is None:
            return None
        ivs = [x for x in walk(inc) if x.get('k') == 'un' and x.get('op') == '++']
        if not ivs:
            return None
        # all incremented scalars must start at constants/iterators; require an integer counter starting at 0
        node = None
        counters = []
        for x in ivs:
            if x['e'].get('k') != 'var' or kind(x['e'].get('t')) != 'num':
                return None
            counters.append(x['e'])
        if len(counters) != 1:
            return None
        vl = self.varloc_resolved(st, fr, counters[0])
        if vl is None or st.store.get(vl) != ZERO:
            return None
        phi = Poly.atom(('phi', lu, 'i'))
        s0 = st.copy()
        s0.store[vl] = phi
        save = self.exc; self.exc = []
        try:
            br = self.cond(s0.copy(), fr, c)
            tr = [s for s, b in br if b]
            fl = [s for s, b in br if not b]
            if len(tr) != 1 or len(fl) != 1:
                return None
            # the bound: from the recorded fact  i - n < 0
            bound = None
            for k in tr[0].facts:
                if isinstance(k, Poly) and any(a == ('phi', lu, 'i') for a in k.atoms()):
                    cphi = k.t.get(((('phi', lu, 'i'), 1),))
                    iv = tr[0].facts[k]
                    if cphi is None:
                        return None
                    rest = k - Poly.atom(('phi', lu, 'i')).scale(cphi)
                    # cphi*i + rest in iv
                    if cphi > 0 and iv.hi is not None and iv.hi_open:
                        bound = (Poly.const(iv.hi) - rest).scale(1 / cphi)
                    elif cphi < 0 and iv.lo is not None and iv.lo_open:
                        bound = (Poly.const(iv.lo) - rest).scale(1 / cphi)
            if bound is None or bound.cval() is not None:
                return None
            r = self.vector_loop(st, fr, n, lu, None, body, bound, start=tr[0], phi=phi, ivl=vl)
            return r
        finally:
            self.exc = save

    def vector_loop(self, st, fr, n, lu, bind, body, size, start=None, phi=None, ivl=None):
        """one symbolic iteration; succeeds only if it consists of elementwise updates and sums"""
        save = self.exc; self.exc = []
        W = set()
        steps0 = self.steps
        try:
            for attempt in range(4):
                if start is None:
                    phi = Poly.atom(('phi', lu, 'i'))
                    ss = bind(st.copy(), phi)
                    if len(ss) != 1:
                        return None
                    s0 = ss[0]
                else:
                    s0 = start.copy()
                for l in W:
                    v = st.store.get(l)
                    if not isinstance(v, Poly):
                        return None
                    s0.store[l] = Poly.atom(('phi', lu, l))
                r = self.stmt(s0.copy(), fr, body)
                if self.exc or len(r) != 1 or r[0][1] not in (None, ('cont',)):
                    return None
                b = r[0][0]
                if b.auto != s0.auto:
                    return None
                ch = {k for k in self.changed(s0, b, fr) if k != ivl}
                acc = set(); elems = set()
                for k in ch:
                    last = k[-1]
                    if last == '#el':
                        continue
                    if isinstance(last, tuple) and last[0] == 'i':
                        if last[1] != phi:
                            return None
                        elems.add(k)
                    elif k in st.store and isinstance(st.store[k], Poly) and isinstance(b.store.get(k), Poly):
                        acc.add(k)
                    elif k[0][0] == 'L' and k not in st.store:
                        continue    # local of the body
                    else:
                        return None
                if acc - W:
                    W |= acc
                    continue
                res = st.copy()
                for k in acc:
                    d = b.store[k] - Poly.atom(('phi', lu, k))
                    if any(_has_phi2(a, lu, phi) and not _only_idx(a, lu) for a in d.atoms()):
                        return None
                    res.store[k] = st.store[k] + Poly.atom(('sum', subst_idx(d, lu), size))
                for k in elems:
                    par = k[:-1]
                    v = b.store[k]
                    if not isinstance(v, Poly):
                        return None
                    vv = unat(v, lu)
                    if vv is None:
                        return None
                    pv = st.store.get(par)
                    for c in st.store.get(par + EL, ()):
                        self.drop(res, par + (c,))
                    res.store.pop(par + EL, None)
                    res.store[par] = ('vec', vv, pv[2] if isinstance(pv, tuple) and pv and pv[0] == 'vec' else size)
                    self.c.on_write(self, res, fr, par, res.store[par], n)
                if ivl is not None:
                    res.store[ivl] = size
                return [(res, None)]
            return None
        finally:
            self.exc = save

    # ------------------------------------------------------------------ conditions
    def cond(self, st, fr, e):
        """[(state, bool)]"""
        k = e['k']
        if k == 'bin' and e['op'] == '&&':
            out = []
            for s, b in self.cond(st, fr, e['a']):
                if b:
                    out.extend(self.cond(s, fr, e['b']))
                else:
                    out.append((s, False))
            return self.dd(out)
        if k == 'bin' and e['op'] == '||':
            out = []
            for s, b in self.cond(st, fr, e['a']):
                if not b:
                    out.extend(self.cond(s, fr, e['b']))
                else:
                    out.append((s, True))
            return self.dd(out)
        if k == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(st, fr, e['e'])]
        if k == 'cast' and e.get('ck') in ('PointerToBoolean', 'IntegralToBoolean', 'NoOp', 'FloatingToBoolean', 'UserDefinedConversion'):
            return self.cond(st, fr, e['e'])
        out = []
        for s, v in self.ev(st, fr, e):
            if v is None:
                v = ('t', ('unk', self.fresh(s, ('unkc', self.uid(e)))))
            out.extend(self.branch(s, v))
        return self.dd(out)

    def dd(self, out):
        if len(out) < 3:
            return out
        t = self.dedupe([s for s, b in out if b]); f = self.dedupe([s for s, b in out if not b])
        return [(s, True) for s in t] + [(s, False) for s in f]

    # ------------------------------------------------------------------ lvalues
    def varloc(self, fr, vid, name):
        return (('L', fr.fid, vid),)

    def varloc_resolved(self, st, fr, n):
        if 'g' in n:
            return None
        loc = self.varloc(fr, n['id'], n['n'])
        v = st.store.get(loc)
        if isinstance(v, tuple) and v and v[0] == 'cap':
            return v[1]
        if n.get('ref') and isinstance(v, tuple) and v and v[0] == 'ref':
            return v[1]
        return loc

    def temp(self, fr, n, tag='t'):
        return (('T', fr.fid, self.uid(n), tag),)

    def lv(self, st, fr, e):
        """[(state, location)]"""
        m = getattr(self, 'l_' + e['k'], None)
        if m is not None:
            r = m(st, fr, e)
            if r is not None:
                return r
        # prvalue: materialise
        out = []
        for s, v in self.ev(st, fr, e):
            if isinstance(v, tuple) and v and v[0] == 'agg':
                out.append((s, v[1]))
                continue
            loc = self.temp(fr, e)
            s = s.copy()
            self.drop(s, loc)
            s.store[loc] = v if v is not None else ('sym', ('unk', self.fresh(s, ('unk', self.uid(e)))))
            out.append((s, loc))
        return out

    def l_var(self, st, fr, e):
        if e.get('lk'):
            return None
        if 'g' in e:
            loc = self.varloc(fr, e['id'], e['n'])
            v = st.store.get(loc)
            if isinstance(v, tuple) and v and v[0] == 'cap':
                return [(st, v[1])]
            return [(st, (('G', e['g']),))]
        loc = self.varloc(fr, e['id'], e['n'])
        v = st.store.get(loc)
        if isinstance(v, tuple) and v and v[0] == 'cap':
            loc = v[1]
            return [(st, loc)]
        if e.get('ref'):
            if isinstance(v, tuple) and v and v[0] == 'ref':
                return [(st, v[1])]
            if isinstance(v, tuple) and v and v[0] == 'sym':
                return [(st, (('P', v[1]),))]
            if v is not None:
                return [(st, loc)]
            return [(st, (('P', ('param', e['id'], e['n'])),))]
        return [(st, loc)]

    def l_this(self, st, fr, e):
        return None

    def deref(self, st, fr, v, node, t=None):
        """location designated by pointer value v"""
        if isinstance(v, tuple) and v:
            if v[0] == 'ref':
                return v[1]
            if v[0] == 'mit':
                return v[1] + (('mp', v[2]),)
            if v[0] == 'xit':
                l = EXACT.deref(self, st, fr, v, node)
                return (('P', ('unkptr', v)),) if l is None else l
            if v[0] == 'null':
                self.c.on_deref(self, st, fr, v, node)
                return (('P', ('null', self.uid(node))),)
            if v[0] == 'sym':
                self.c.on_deref(self, st, fr, v, node)
                st.facts.setdefault(('nn', v), True)
                loc = (('P', v[1]),)
                if t and kind(t) == 'num':
                    loc = loc + (('i', ZERO),)
                return loc
            if v[0] == 'agg':
                return v[1]
        return (('P', ('unkptr', v)),)

    def l_mem(self, st, fr, e):
        out = []
        if e.get('arrow'):
            bs = [(s, self.deref(s.copy() if False else s, fr, v, e)) for s, v in self.ev(st, fr, e['b'])]
        else:
            bs = self.lv(st, fr, e['b'])
        for s, b in bs:
            last = b[-1]
            if isinstance(last, tuple) and last[0] == 'mp':
                if e['f'] == 'second':
                    out.append((s, b[:-1] + (('kv', last[1]),)))
                else:
                    loc = self.temp(fr, e, 'key')
                    s = s.copy()
                    s.store[loc] = last[1]
                    out.append((s, loc))
                continue
            fc = e.get('fc') or ''
            if EXACT and fc.startswith('std::pair<'):
                fc = EXACT.PAIR
            loc = b + (('f', fc, e['f']),)
            if e.get('fref'):
                v = s.store.get(loc)
                if v is None:
                    bb = self.base_of(s, loc)
                    v = ('sym', ('init', bb[1])) if bb[0] == 'at0' else None
                if isinstance(v, tuple) and v and v[0] == 'ref':
                    out.append((s, v[1])); continue
                if isinstance(v, tuple) and v and v[0] == 'sym':
                    out.append((s, (('P', v[1]),))); continue
            out.append((s, loc))
        return out

    def l_idx(self, st, fr, e):
        out = []
        for s, b in self.ev(st, fr, e['b']) if '[' not in (e['b'].get('t') or '') else [(s, ('ref', l + (('i', ZERO),))) for s, l in self.lv(st, fr, e['b'])]:
            for s2, i in self.ev(s, fr, e['i']):
                out.append((s2, self.ptr_elem(s2, fr, b, i, e)))
        return out

    def ptr_elem(self, st, fr, b, i, e):
        i = i if isinstance(i, Poly) else Poly.atom(('ival', i))
        if isinstance(b, tuple) and b and b[0] == 'ref':
            l = b[1]
            if isinstance(l[-1], tuple) and l[-1][0] == 'i':
                return l[:-1] + (('i', l[-1][1] + i),)
            if i == ZERO:
                return l
            return l + (('i', i),)
        if isinstance(b, tuple) and b and b[0] == 'sym':
            self.c.on_deref(self, st, fr, b, e)
            return (('P', b[1]), ('i', i))
        return (('P', ('unkptr', b)), ('i', i))

    def l_un(self, st, fr, e):
        if e['op'] == '*':
            return [(s, self.deref(s, fr, v, e, e.get('t'))) for s, v in self.ev(st, fr, e['e'])]
        if e['op'] in ('++', '--') and not e.get('post'):
            return self.incdec(st, fr, e, want='loc')
        if e['op'] == '__extension__':
            return self.lv(st, fr, e['e'])
        return None

    def l_bin(self, st, fr, e):
        if e['op'] == '=' or (e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>=')):
            return self.assign(st, fr, e)
        if e['op'] == ',':
            out = []
            for s, _ in self.ev(st, fr, e['a']):
                out.extend(self.lv(s, fr, e['b']))
            return out
        return None

    def l_cond(self, st, fr, e):
        out = []
        for s, b in self.cond(st, fr, e['c']):
            out.extend(self.lv(s, fr, e['a'] if b else e['b']))
        return out

    def l_cast(self, st, fr, e):
        if e.get('ck') in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'Dynamic', 'LValueBitCast', 'ToVoid') or \
           e.get('cc') == 'const_cast':
            return self.lv(st, fr, e['e'])
        return None

    def l_call(self, st, fr, e):
        out = []
        rr = e.get('rr')
        for s, v in self.ev(st, fr, e):
            if isinstance(v, tuple) and v and v[0] == 'ref' and rr:
                out.append((s, v[1]))
            elif isinstance(v, tuple) and v and v[0] == 'agg':
                out.append((s, v[1]))
            elif rr and isinstance(v, tuple) and v and v[0] == 'sym':
                out.append((s, (('P', v[1]),)))
            else:
                loc = self.temp(fr, e)
                s = s.copy()
                self.drop(s, loc)
                if v is not None:
                    s.store[loc] = v
                out.append((s, loc))
        return out

    l_icall = l_call
    l_pmcall = l_call

    def l_rv(self, st, fr, e):
        return None

    def l_lit(self, st, fr, e):
        return None

    def l_ctor(self, st, fr, e):
        if kind(e.get('t')) == 'agg' and not _is_enum(e.get('t')):
            loc = self.temp(fr, e)
            s = st.copy()
            self.drop(s, loc)
            return [(s2, l) for s2, l in self.construct(s, fr, loc, e)]
        return None

    def l_ilist(self, st, fr, e):
        loc = self.temp(fr, e)
        s = st.copy(); self.drop(s, loc)
        return [(s2, loc) for s2 in self.init_loc(s, fr, loc, e, e.get('t') if kind(e.get('t')) == 'agg' else 'agg')]

    # ------------------------------------------------------------------ rvalues
    def ev(self, st, fr, e):
        """[(state, value)]"""
        if e is None:
            return [(st, None)]
        self.steps += 1
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise AnalysisError('expression kind %s not supported at %s' % (e['k'], fr.where(e)))
        return m(st, fr, e)

    def e_lit(self, st, fr, e):
        k = e.get('lk')
        if k == 'i' or k == 'e':
            return [(st, Poly.const(int(e['v'])))]
        if k == 'c':
            return [(st, Poly.const(int(e['v'])))]
        if k == 'f':
            return [(st, Poly.const(Fraction(str(e['v'])) if '/' not in str(e['v']) else Fraction(e['v'])))]
        if k == 'b':
            return [(st, bool(e['v']))]
        if k == 's':
            return [(st, ('str', e['v']))]
        if k == 'n':
            return [(st, ('null',))]
        return [(st, ('sym', ('lit', str(e.get('v')))))]

    def e_this(self, st, fr, e):
        return [(st, ('ref', fr.this))]

    def e_var(self, st, fr, e):
        if 'cv' in e:
            return [(st, Poly.const(int(e['cv'])))]
        if e.get('g', '').startswith('std::placeholders::_'):
            return [(st, ('ph', int(e['g'].rsplit('_', 1)[1])))]
        if 'ginit' in e and e['ginit'] and kind(e.get('t')) in ('num', 'bool', 'ptr', 'str'):
            return self.ev(st, fr, e['ginit'])
        return self.load(st, fr, e)

    def load(self, st, fr, e, t=None):
        out = []
        for s, l in self.lv(st, fr, e):
            out.append((s, self.read(s, l, t or e.get('t'), fr, e)))
        return out

    def e_mem(self, st, fr, e):
        return self.load(st, fr, e)

    def e_idx(self, st, fr, e):
        return self.load(st, fr, e)

    def e_rv(self, st, fr, e):
        x = e['e']
        if x['k'] == 'var' and ('cv' in x or 'ginit' in x):
            return self.e_var(st, fr, x)
        return self.load(st, fr, x, e.get('t'))

    def e_memfn(self, st, fr, e):
        return [(st, ('fnp', e['fn']))]

    def e_fnref(self, st, fr, e):
        return [(st, ('fnp', e['fn']))]

    def e_pdtor(self, st, fr, e):
        return [(st, None)]

    def e_zero(self, st, fr, e):
        return [(st, zero_of(e.get('t')))]

    def e_typeid(self, st, fr, e):
        return [(st, ('sym', ('typeid', e.get('ty') or 'dyn')))]

    def e_throw(self, st, fr, e):
        if e.get('e'):
            for s, v in self.lv(st, fr, e['e']):
                s = s.copy()
                self.c.on_throw(self, s, fr, e)
                self.exc.append((s, ('exc', e.get('tt')), e, fr))
        else:
            s = st.copy()
            self.c.on_throw(self, s, fr, e)
            self.exc.append((s, ('exc', None), e, fr))
        return []

    def e_new(self, st, fr, e):
        s = st.copy()
        loc = (('O', self.uid(e), fr.fid, self.fresh(s, ('new', self.uid(e)))[1]),)
        if e.get('init') and not e.get('arr'):
            out = []
            if e['init']['k'] == 'ctor' :
                for s2, _ in self.construct(s, fr, loc, e['init']):
                    out.append((s2, ('ref', loc)))
            else:
                for s2 in self.init_loc(s, fr, loc, e['init'], e.get('at')):
                    out.append((s2, ('ref', loc)))
            return out
        return [(s, ('ref', loc))]

    def e_delete(self, st, fr, e):
        return [(s, None) for s, v in self.ev(st, fr, e['e'])]

    def e_lambda(self, st, fr, e):
        caps = []
        cur = [(st, ())]
        for c in e['caps']:
            nxt = []
            for s, cs in cur:
                if c.get('this'):
                    nxt.append((s, cs + (('this', 'ref', fr.this),)))
                elif c.get('byref'):
                    for s2, l in self.lv(s, fr, c['init']):
                        nxt.append((s2, cs + ((c['id'], 'ref', l),)))
                elif kind((c['init'] or {}).get('t')) == 'agg' and not _is_enum(c['init'].get('t')):
                    for s2, l in self.lv(s, fr, c['init']):
                        s2 = s2.copy()
                        dst = (('O', self.uid(e), fr.fid, 'cap', c['id']),)
                        self.copy_tree(s2, l, dst)
                        nxt.append((s2, cs + ((c['id'], 'val', ('agg', dst)),)))
                else:
                    for s2, v in self.ev(s, fr, c['init']):
                        nxt.append((s2, cs + ((c['id'], 'val', v),)))
            cur = nxt
        fn = e.get('fn') or tuple(e.get('generic') or ())
        return [(s, ('clo', e['cls'], fn, cs)) for s, cs in cur]

    def e_unk(self, st, fr, e):
        cur = [(st, ())]
        for a in e.get('a', []):
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(s, fr, a):
                    nxt.append((s2, vs + (v,)))
            cur = nxt
        out = []
        for s, vs in cur:
            s = s.copy()
            out.append((s, mk(e.get('t'), ('unk', e.get('cls'), self.fresh(s, ('unk', self.uid(e)))))))
        return out

    def e_cond(self, st, fr, e):
        out = []
        for s, b in self.cond(st, fr, e['c']):
            out.extend(self.ev(s, fr, e['a'] if b else e['b']))
        return self.dedupe_vals(out)

    def e_ilist(self, st, fr, e):
        t = e.get('t')
        if len(e['a']) == 1 and kind(t) != 'agg':
            return self.ev(st, fr, e['a'][0])
        if not e['a'] and kind(t) != 'agg':
            return [(st, zero_of(t))]
        return [(s, ('agg', l)) for s, l in self.l_ilist(st, fr, e)]

    def dyncast(self, st, e, v):
        """dynamic_cast of a pointer to an object of known class"""
        if isinstance(v, tuple) and v[:1] == ('ref',):
            l = tuple(x for x in v[1] if not (isinstance(x, tuple) and x[:1] == ('sub',)))
            d = st.store.get(l + DYN)
            if d:
                c = d[1] if isinstance(d, tuple) else d
                t = e.get('t').replace('const ', '').replace('*', '').replace('&', '').strip()
                return ('ref', l) if self.p.is_a(c, t) else ('null',)
        return v if v == ('null',) or not isinstance(v, tuple) else ('sym', ('dyncast', e.get('t'), v))

    def e_cast(self, st, fr, e):
        ck = e.get('ck')
        out = []
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'Dynamic', 'BitCast', 'LValueBitCast') :
            x = e['e']
            if ck == 'Dynamic':
                if getattr(self.c, 'dynamic_types', False):
                    return [(s, self.dyncast(s, e, v)) for s, v in self.ev(st, fr, x)]
                return [(s, v if v == ('null',) else (v if not isinstance(v, tuple) else ('sym', ('dyncast', e.get('t'), v)))) for s, v in self.ev(st, fr, x)]
            return self.ev(st, fr, x)
        if ck == 'ToVoid':
            return [(s, None) for s, v in self.ev(st, fr, e['e'])]
        if ck == 'NullToPointer':
            return [(st, ('null',))]
        for s, v in self.ev(st, fr, e['e']):
            if ck in ('IntegralCast',):
                if isinstance(v, Poly):
                    c = v.cval()
                    t = strip(e.get('t'))
                    if c is not None:
                        v = Poly.const(wrap(int(c), t))
                elif isinstance(v, bool):
                    v = ONE if v else ZERO
                elif isinstance(v, tuple) and v[0] in ('cmp', 'not', 't', 'nn', 'peq'):
                    for s2, b in self.branch(s, v):
                        out.append((s2, ONE if b else ZERO))
                    continue
            elif ck == 'IntegralToFloating':
                if isinstance(v, bool):
                    v = ONE if v else ZERO
                elif isinstance(v, tuple) and v and v[0] in ('cmp', 'not', 't', 'nn', 'peq'):
                    for s2, b in self.branch(s, v):
                        out.append((s2, ONE if b else ZERO))
                    continue
            elif ck == 'FloatingToIntegral':
                if isinstance(v, Poly):
                    c = v.cval()
                    v = Poly.const(int(c)) if c is not None else Poly.atom(('app', 'trunc', v))
            elif ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                v = self.conv(v, 'bool')
            elif ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
                v = self.conv(v, 'bool')
            out.append((s, v))
        return out

    def e_un(self, st, fr, e):
        op = e['op']
        if op == '&':
            x = e['e']
            if x['k'] in ('fnref', 'memfn'):
                return [(st, ('fnp', x['fn']))]
            if x['k'] == 'var' and 'fn' in x:
                return [(st, ('fnp', x['fn']))]
            return [(s, ('ref', l)) for s, l in self.lv(st, fr, x)]
        if op == '*':
            return self.load(st, fr, e)
        if op in ('++', '--'):
            return self.incdec(st, fr, e, want='val')
        out = []
        for s, v in self.ev(st, fr, e['e']):
            if op == '-':
                if isinstance(v, Poly):
                    v = -v
                elif isinstance(v, bool):
                    v = Poly.const(-int(v))
                else:
                    v = Poly.atom(('app', 'neg', v))
            elif op == '!':
                v = neg(self.conv(v, 'bool')) if v is not None else None
            elif op == '~':
                if isinstance(v, Poly) and v.cval() is not None:
                    v = Poly.const(wrap(~int(v.cval()), strip(e.get('t'))))
                else:
                    v = Poly.atom(('app', 'bitnot', v))
            out.append((s, v))
        return out

    def incdec(self, st, fr, e, want):
        out = []
        d = ONE if e['op'] == '++' else -ONE
        for s, l in self.lv(st, fr, e['e']):
            s = s.copy()
            t = e['e'].get('t')
            old = self.read(s, l, t, fr, e)
            new = self.ptr_add(old, d)
            if isinstance(new, Poly) and strip(t) in INTS and new.cval() is not None:
                new = Poly.const(wrap(int(new.cval()), strip(t)))
            self.write(s, l, new, fr, e)
            if want == 'loc':
                out.append((s, l))
            else:
                out.append((s, old if e.get('post') else new))
        return out

    def ptr_add(self, v, d):
        if isinstance(v, Poly):
            return v + d if isinstance(d, Poly) else Poly.atom(('app', '+', v, d))
        if isinstance(v, tuple) and v:
            if v[0] == 'ref':
                l = v[1]
                if isinstance(l[-1], tuple) and l[-1][0] == 'i':
                    return ('ref', l[:-1] + (('i', l[-1][1] + d),))
                if d == ZERO:
                    return v
                return ('ref', l + (('i', d),))
            if v[0] == 'sym':
                return ('ref', (('P', v[1]), ('i', d)))
            if v[0] == 'mit':
                return ('mit', v[1], ('next', v[2]))
        return ('sym', ('padd', v, d))

    def e_bin(self, st, fr, e):
        op = e['op']
        if op in ('&&', '||'):
            return self.dedupe_vals([(s, b) for s, b in self.cond(st, fr, e)])
        if op == ',':
            out = []
            for s, _ in self.ev(st, fr, e['a']):
                out.extend(self.ev(s, fr, e['b']))
            return out
        if op == '=' or (op.endswith('=') and op not in ('==', '!=', '<=', '>=')):
            return [(s, self.read(s, l, e['a'].get('t'), fr, e)) for s, l in self.assign(st, fr, e)]
        if op in ('.*', '->*'):
            return self.e_unk(st, fr, {'k': 'unk', 'a': [e['a'], e['b']], 't': e.get('t'), 'cls': 'ptm', 'l': e.get('l')})
        out = []
        for s, a in self.ev(st, fr, e['a']):
            for s2, b in self.ev(s, fr, e['b']):
                if op in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^') :
                    # formulas used as numbers
                    for s3, a2 in self.as_num(s2, a):
                        for s4, b2 in self.as_num(s3, b):
                            out.append((s4, self.arith(s4, op, a2, b2, e)))
                else:
                    out.append((s2, self.rel(op, a, b)))
        return out

    def as_num(self, st, v):
        if isinstance(v, bool):
            return [(st, ONE if v else ZERO)]
        if isinstance(v, tuple) and v and v[0] in ('cmp', 'not', 't', 'nn', 'peq'):
            return [(s, ONE if b else ZERO) for s, b in self.branch(st, v)]
        return [(st, v)]

    def arith(self, st, op, a, b, e):
        isint = strip(e.get('t')) in INTS
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == '+':
                return a + b
            if op == '-':
                r = a - b
                c = r.cval()
                if c is not None and isint:
                    return Poly.const(wrap(int(c), strip(e.get('t'))))
                return r
            if op == '*':
                return a * b
            ca, cb = a.cval(), b.cval()
            if op == '/':
                if isint:
                    if ca is not None and cb:
                        q = abs(int(ca)) // abs(int(cb))
                        return Poly.const(q if (ca < 0) == (cb < 0) else -q)
                    if cb == 1:
                        return a
                    return Poly.atom(('app', 'idiv', a, b))
                self.c.on_div(self, st, a, b, e)
                if cb == 0:
                    return Poly.atom(('app', 'fdiv0', a))
                return a / b
            if ca is not None and cb is not None and isint:
                x, y = int(ca), int(cb)
                t = strip(e.get('t'))
                if op == '%' and y:
                    r = abs(x) % abs(y)
                    return Poly.const(r if x >= 0 else -r)
                if op == '<<' and 0 <= y < 64:
                    return Poly.const(wrap(x << y, t))
                if op == '>>' and y >= 0:
                    return Poly.const(x >> y)
                if op == '&':
                    return Poly.const(x & y)
                if op == '|':
                    return Poly.const(x | y)
                if op == '^':
                    return Poly.const(x ^ y)
            return Poly.atom(('app', op, a, b))
        # pointer arithmetic
        ka = isinstance(a, tuple) and a and a[0] in ('ref', 'sym', 'mit')
        kb = isinstance(b, tuple) and b and b[0] in ('ref', 'sym', 'mit')
        if ka and isinstance(b, Poly):
            return self.ptr_add(a, b if op == '+' else -b)
        if kb and isinstance(a, Poly) and op == '+':
            return self.ptr_add(b, a)
        if ka and kb and op == '-':
            d = self.ptr_diff(a, b)
            if d is not None:
                return d
        return mk(e.get('t'), ('app', op, a, b))

    def ptr_diff(self, a, b):
        def split(x):
            if x[0] == 'ref':
                l = x[1]
                if isinstance(l[-1], tuple) and l[-1][0] == 'i':
                    return l[:-1], l[-1][1]
                return l, ZERO
            if x[0] == 'sym':
                return (('P', x[1]),), ZERO
            return None, None
        la, ia = split(a); lb, ib = split(b)
        if la is not None and la == lb:
            return ia - ib
        return None

    def rel(self, op, a, b):
        if op == '!=':
            return neg(self.rel('==', a, b))
        if op == '>':
            return self.rel('<', b, a)
        if op == '>=':
            return self.rel('<=', b, a)
        if isinstance(a, bool) and isinstance(b, bool) and op == '==':
            return a == b
        if isinstance(a, bool):
            if op == '==':
                if isinstance(b, tuple):
                    return b if a else neg(b)
            a = ONE if a else ZERO
        if isinstance(b, bool):
            if op == '==' and isinstance(a, tuple):
                return a if b else neg(a)
            b = ONE if b else ZERO
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = a - b
            c = d.cval()
            if c is not None:
                return {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
            return ('cmp', op, d)
        if a == b and op in ('==', '<='):
            return True
        if a == b and op == '<':
            return False
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
            if a[0] == 'mit' or b[0] == 'mit':
                if a[0] == 'mit' and b[0] == 'mit' and op == '==' and a[1] == b[1]:
                    if b[2] == 'END':
                        return neg(self.map_has(a))
                    if a[2] == 'END':
                        return neg(self.map_has(b))
                return ('t', ('miteq', a, b))
            ptrs = ('ref', 'sym', 'null', 'clo', 'fnp', 'bind')
            if a[0] in ptrs and b[0] in ptrs:
                if op == '==':
                    if b[0] == 'null':
                        return nullform(a)
                    if a[0] == 'null':
                        return nullform(b)
                    if a[0] == 'ref' and b[0] == 'ref':
                        d = self.ptr_diff(a, b)
                        if d is not None:
                            return self.rel('==', d, ZERO)
                        return False
                    return ('peq',) + tuple(sorted((a, b), key=akey))
                d = self.ptr_diff(a, b) if a[0] in ('ref', 'sym') and b[0] in ('ref', 'sym') else None
                if d is not None:
                    return self.rel(op, d, ZERO)
            if a[0] == 'str' and b[0] == 'str':
                if op == '==':
                    return a == b
                return a[1] < b[1] if op == '<' else a[1] <= b[1]
        if op == '==':
            return ('peq',) + tuple(sorted((hashable(a), hashable(b)), key=akey))
        return ('t', (op, hashable(a), hashable(b)))

    def map_has(self, it):
        return ('t', ('has', it[3] if len(it) > 3 else it[1], it[2])) if it[3:] != (True,) else True

    def assign(self, st, fr, e):
        """[(state, location)] for = and compound assignments of built-in types"""
        op = e['op']
        out = []
        for s, v in self.ev(st, fr, e['b']):
            for s2, l in self.lv(s, fr, e['a']):
                s2 = s2.copy()
                t = e['a'].get('t')
                if op == '=':
                    if kind(t) == 'agg' and not _is_enum(t) and isinstance(v, tuple) and v[:1] == ('agg',):
                        self.copy_tree(s2, v[1], l, fr, e)
                    else:
                        self.write(s2, l, self.conv(v, t), fr, e)
                    out.append((s2, l))
                else:
                    old = self.read(s2, l, t, fr, e)
                    bop = op[:-1]
                    if kind(t) == 'bool' and bop in ('|', '&'):
                        for s3, b1 in self.branch(s2, old if old is not None else False):
                            for s4, b2 in self.branch(s3, self.conv(v, 'bool')):
                                s4 = s4.copy()
                                self.write(s4, l, (b1 or b2) if bop == '|' else (b1 and b2), fr, e)
                                out.append((s4, l))
                        continue
                    for s3, v2 in self.as_num(s2, v):
                        s3 = s3.copy()
                        self.write(s3, l, self.arith(s3, bop, old, v2, {'t': t}), fr, e)
                        out.append((s3, l))
        return out

    # ------------------------------------------------------------------ construction and calls
    def args(self, st, fr, e):
        """[(state, [values])]; reference parameters get ('ref', loc)"""
        pm = e.get('pm') or []
        cur = [(st, [])]
        for i, a in enumerate(e.get('a') or []):
            m = pm[i] if i < len(pm) else 0
            nxt = []
            for s, vs in cur:
                if a is None:
                    nxt.append((s, vs + [None])); continue
                if m in (1, 2, 3):
                    for s2, l in self.lv(s, fr, a):
                        nxt.append((s2, vs + [('ref', l)]))
                elif kind(a.get('t')) == 'agg' and not _is_enum(a.get('t')):
                    for s2, l in self.lv(s, fr, a):
                        nxt.append((s2, vs + [('agg', l)]))
                else:
                    for s2, v in self.ev(s, fr, a):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def construct(self, st, fr, loc, e, base=False):
        """construct a class object of aggregate kind in place; [(state, loc)]"""
        cls = e.get('cls')
        ct = e.get('ct') or ''
        q = e.get('q') or ''
        out = []
        if e.get('copy') and e.get('a'):
            f = self.p.fns.get(e['fn'])
            if f is None or f.implicit or not f.body or not (f.body.get('b') or f.inits):
                for s, l in self.lv(st, fr, e['a'][0]):
                    s = s.copy()
                    self.copy_tree(s, l, loc, fr, e)
                    if not base and cls in self.p.classes:
                        s.store[loc + DYN] = cls
                    out.append((s, loc))
                return out
        for s, args in self.args(st, fr, e):
            s = s.copy()
            if not base:
                self.drop(s, loc)
                s.store[loc + BASE] = ('fresh',)
                if cls in self.p.classes:
                    s.store[loc + DYN] = cls
            r = self.c.call(self, s, fr, e, e['fn'], loc, args)
            if r is not None:
                out.extend((s2, loc) for s2, _ in r)
                continue
            r = self.std_ctor(s, fr, e, ct, loc, args)
            if r is not None:
                out.extend((s2, loc) for s2 in r)
                continue
            f = self.p.fns.get(e['fn'])
            if f is not None and not self.too_deep(fr, f):
                for s2, _ in self.invoke(s, fr, e, f, loc, args):
                    out.append((s2, loc))
            else:
                if f is None and cls in self.p.classes and not args:
                    out.append((s, loc))        # trivial default constructor
                    continue
                self.havoc_args(s, fr, e, args)
                if args or f is not None:
                    if not base:
                        self.havoc(s, loc, self.uid(e))
                        if cls in self.p.classes:
                            s.store[loc + DYN] = cls
                out.append((s, loc))
        return out

    def std_ctor(self, st, fr, e, ct, loc, args):
        if EXACT:
            r = EXACT.ctor(self, st, fr, e, ct, loc, args)
            if r is not None:
                return r
        if ct == 'std::vector::vector' or ct == 'std::vector':
            self.drop(st, loc)
            a = [x for x, n in zip(args, e['a']) if not (n or {}).get('t', '').startswith('std::allocator') and not (n or {}).get('ct', '').startswith('std::allocator')]
            n0 = e['a'][0] if e['a'] else None
            if not a:
                st.store[loc + (SIZE,)] = ZERO
                st.store[loc + BASE] = ('fresh',)
                return [st]
            if isinstance(a[0], Poly):
                st.store[loc + (SIZE,)] = a[0]
                et = strip(e.get('t'))
                if len(a) > 1:
                    v = a[1]
                    if isinstance(v, tuple) and v and v[0] == 'ref':
                        inner = vec_elem_type(et)
                        v = self.read(st, v[1], inner, fr, e)
                    st.store[loc + BASE] = ('fill', v)
                else:
                    st.store[loc + BASE] = ('fill', zero_of(vec_elem_type(et)))
                return [st]
            if n0 is not None and (n0['k'] == 'ilist' or '[' in (n0.get('t') or '') or 'initializer_list' in (n0.get('t') or '')):
                src = a[0][1]
                self.copy_tree(st, src, loc, fr, e)
                if (loc + (SIZE,)) not in st.store:
                    els = st.store.get(loc + EL, frozenset())
                    st.store[loc + (SIZE,)] = Poly.const(len(els))
                return [st]
            if isinstance(a[0], tuple) and a[0][0] == 'agg':
                self.copy_tree(st, a[0][1], loc, fr, e)
                return [st]
            if e.get('copy') and isinstance(a[0], tuple) and a[0][0] == 'ref':
                self.copy_tree(st, a[0][1], loc, fr, e)
                return [st]
            if len(a) >= 2:     # iterator range
                self.havoc(st, loc, self.uid(e))
                return [st]
            return None
        if ct in ('std::map::map', 'std::map', 'std::set', 'std::list', 'std::set::set', 'std::list::list', 'std::map'):
            a = [x for x, n in zip(args, e['a']) if not (n or {}).get('defarg')]
            if not a:
                self.drop(st, loc)
                st.store[loc + BASE] = ('fresh',)
                st.store[loc + (SIZE,)] = ZERO
                return [st]
            return None
        if ct in ('std::pair::pair', 'std::pair') and len(args) == 2:
            for i, nm in enumerate(('first', 'second')):
                v = args[i]
                t = e['a'][i].get('t')
                if isinstance(v, tuple) and v and v[0] == 'ref' and (e.get('pm') or [0, 0])[i] in (1, 2, 3):
                    v = self.read(st, v[1], t, fr, e)
                self.write(st, loc + (('f', e.get('cls') or '', nm),), v, fr, e)
            return [st]
        return None

    def too_deep(self, fr, f):
        if fr is None:
            return False
        if fr.depth > self.c.max_depth:
            return True
        n = 0
        x = fr
        while x:
            if x.fn is f:
                n += 1
            x = x.parent
        return n >= 2

    def havoc_args(self, st, fr, e, args):
        pm = e.get('pm') or []
        for i, a in enumerate(args):
            m = pm[i] if i < len(pm) else 0
            if m in (2, 5) and isinstance(a, tuple) and a and a[0] == 'ref':
                l = a[1]
                an = e['a'][i] if i < len(e.get('a') or []) else None
                if isinstance(l[-1], tuple) and l[-1][0] == 'i' and m == 5:
                    l = l[:-1]
                self.havoc_loc(st, fr, l, e, an.get('t') if an else None, i)

    def havoc_loc(self, st, fr, l, e, t, i):
        tag = (self.uid(e), i)
        v = st.store.get(l)
        dyn = st.store.get(l + DYN)
        if isinstance(v, tuple) and v and v[0] == 'vec' or (t and kind(t) in ('vec', 'blk')):
            n = self.fresh(st, ('hv', tag))
            sz = v[2] if isinstance(v, tuple) and v and v[0] == 'vec' else Poly.atom(('size', ('hv', n)))
            self.write(st, l, ('vec', Poly.atom(('V', ('hv', n))), sz), fr, e)
            return
        self.havoc(st, l, tag)
        if dyn is not None:
            st.store[l + DYN] = dyn

    def e_ctor(self, st, fr, e):
        t = e.get('t')
        k = kind(t)
        if k == 'agg' and not _is_enum(t):
            return [(s, ('agg', l)) for s, l in self.l_ctor(st, fr, e)]
        return self.value_ctor(st, fr, e, k)

    def value_ctor(self, st, fr, e, k):
        a = [x for x in e.get('a') or [] if not ((x or {}).get('defarg') or (x or {}).get('t', '').startswith('std::allocator'))]
        t = e.get('t')
        out = []
        if k == 'unit':
            return [(st, ('sym', ('unit',)))]
        if k == 'fn':
            if not a:
                return [(st, ('null',))]
            return self.val_or_load(st, fr, a[0])
        if k == 'ptr':
            if not a:
                return [(st, ('null',))]
            return self.val_or_load(st, fr, a[0])
        if k == 'it':
            if not a:
                return [(st, ('sym', ('noit',)))]
            x = a[0]
            while x['k'] == 'cast' and x.get('e'):
                x = x['e']
            r = self.val_or_load(st, fr, a[0])
            if EXACT and x['k'] in ('call', 'mcall') and x.get('rr') and kind(x.get('t')) == 'it':
                # an iterator returned by reference
                r = [(s, self.read(s, v[1], x.get('t'), fr, x) if isinstance(v, tuple) and v[:1] == ('ref',) else v) for s, v in r]
            return r
        if k == 'str':
            if not a:
                return [(st, ('str', ''))]
            if len(a) == 1:
                r = []
                for s, v in self.val_or_load(st, fr, a[0]):
                    r.append((s, v if isinstance(v, tuple) and v and v[0] in ('str', 'sym') else ('sym', ('strof', hashable(v)))))
                return r
            cur = [(st, ())]
            for x in a:
                cur = [(s2, vs + (hashable(v),)) for s, vs in cur for s2, v in self.val_or_load(s, fr, x)]
            out = []
            for s, vs in cur:
                c = [v.cval() if isinstance(v, Poly) else None for v in vs]
                if EXACT and len(vs) == 2 and None not in c and strip(a[1].get('t') or '') == 'char':
                    out.append((s, ('str', chr(int(c[1])) * int(c[0]))))
                else:
                    out.append((s, ('sym', ('strof',) + vs)))
            return out
        if k in ('vec', 'blk'):
            for s, args in self.args(st, fr, e):
                r = self.c.call(self, s, fr, e, e['fn'], None, args)
                if r is not None:
                    out.extend(r); continue
                if not args:
                    out.append((s, ('vec', ZERO, ZERO)))
                    continue
                x = args[0]
                an = e['a'][0]
                if isinstance(x, Poly):
                    out.append((s, ('vec', ZERO, x)))
                elif isinstance(x, tuple) and x[0] == 'ref':
                    if kind(an.get('t')) in ('vec', 'blk') or 'VectorProxy' in an.get('t', ''):
                        v = self.read_vec(s, x[1], an.get('t'), fr, e)
                        if k == 'blk':
                            v = s.store.get(x[1], v)
                        out.append((s, v))
                    else:
                        out.append((s, mk(t, ('vecof', x))))
                elif isinstance(x, tuple) and x and x[0] in ('vec', 'blkv'):
                    out.append((s, x))
                else:
                    s = s.copy()
                    out.append((s, mk(t, ('vecof', hashable(x)))))
            return out
        return self.e_unk(st, fr, dict(e, k='unk'))

    def val_or_load(self, st, fr, a):
        return self.ev(st, fr, a)

    # vectors ------------------------------------------------------------
    def read_vec(self, st, loc, t, fr, node):
        v = self.read(st, loc, 'ctm::math::VectorTemplate<ctm::math::VectorData<double>>', fr, node)
        if isinstance(v, tuple) and v and v[0] == 'blkv':
            return self.read(st, v[1] + (('b', v[2], v[3]),), 'ctm::math::VectorTemplate<ctm::math::VectorData<double>>', fr, node) \
                if (v[1] + (('b', v[2], v[3]),)) in st.store else self.blk_read(st, v, fr, node)
        return v

    def blk_read(self, st, v, fr, node):
        if st.store.get(v[1] + EL) or (st.store.get(v[1]) is not None and v[2] == ZERO):
            r = self.read(st, v[1] + (('b', v[2], v[3]),), 'ctm::math::VectorTemplate<ctm::math::VectorData<double>>', fr, node)
            if isinstance(r, tuple) and r and r[0] == 'vec' and not _is_sel(r[1]):
                return ('vec', r[1], v[3])
        par = self.read(st, v[1], 'ctm::math::VectorTemplate<ctm::math::VectorData<double>>', fr, node)
        return ('vec', blk(par[1], v[2], v[3]), v[3])

    def vsize(self, st, loc, t):
        v = st.store.get(loc)
        if isinstance(v, tuple) and v and v[0] == 'blkv':
            return v[3]
        v = self.read(st, loc, 'ctm::math::VectorTemplate<ctm::math::VectorData<double>>')
        return v[2] if isinstance(v, tuple) and v and v[0] == 'vec' else Poly.atom(('size', ('unk', loc)))

    def elemloc(self, st, loc, idx, t=None):
        v = st.store.get(loc)
        if isinstance(v, tuple) and v and v[0] == 'blkv':
            return v[1] + (('i', idx + v[2]),)
        if v is None and loc[-1] != BASE:
            # make the vector value explicit so that elements are elements of a vector
            st.store[loc] = self.read(st, loc, 'ctm::math::VectorTemplate<ctm::math::VectorData<double>>')
        return loc + (('i', idx),)

    def write_vec(self, st, loc, v, fr, node, keep_size=True):
        cur = st.store.get(loc)
        if isinstance(cur, tuple) and cur and cur[0] == 'blkv':
            self.write(st, cur[1] + (('b', cur[2], cur[3]),), v, fr, node)
            return
        self.write(st, loc, v, fr, node)

    def e_icall(self, st, fr, e):
        out = []
        for s, f in self.ev(st, fr, e['callee']):
            for s2, args in self.args(s, fr, e):
                out.extend(self.call_value(s2, fr, e, f, args))
        return out

    def e_pmcall(self, st, fr, e):
        c = e.get('callee') or {}
        while c.get('k') in ('paren', 'cast') and c.get('e'):
            c = c['e']
        if c.get('op') in ('->*', '.*'):
            out = []
            for s, o in (self.ev(st, fr, c['a']) if c['op'] == '->*' else [(s, ('ref', l)) for s, l in self.lv(st, fr, c['a'])]):
                for s2, f in self.val_or_load(s, fr, c['b']):
                    if not (isinstance(f, tuple) and f and f[0] == 'fnp'):
                        return self.e_unk(st, fr, {'k': 'unk', 'a': e.get('a', []), 't': e.get('t'), 'cls': 'pmcall', 'l': e.get('l')})
                    for s3, args in self.args(s2, fr, e):
                        out += self.call_value(s3, fr, e, f, [o] + list(args))
            return out
        return self.e_unk(st, fr, {'k': 'unk', 'a': e.get('a', []), 't': e.get('t'), 'cls': 'pmcall', 'l': e.get('l')})

    def call_value(self, st, fr, node, f, args):
        """call a function value"""
        if isinstance(f, tuple) and f:
            if f[0] == 'clo':
                fid = f[2]
                if isinstance(fid, tuple):
                    cands = [x for x in fid if x in self.p.fns]
                    fid = cands[0] if cands else None
                fn = self.p.fns.get(fid)
                if fn is not None and not self.too_deep(fr, fn):
                    args = self.adapt(st, fr, node, fn, args)
                    return self.invoke(st, fr, dict(node, _u=self.uid(node)), fn, (('O', 'lambda', fn.id),), args, captures=f[3])
            elif f[0] == 'fnp':
                fn = self.p.fns.get(f[1])
                mr = self.p.meth_by_id.get(f[1])
                if mr and mr[1].get('virt', mr[1].get('virtual', mr[1].get('pure'))) and args and isinstance(args[0], tuple):
                    # pointer to a virtual member function
                    st = st.copy()
                    dyn = st.store.get(self.deref(st, fr, args[0], node) + DYN)
                    if isinstance(dyn, str):
                        fn = self.p.fns.get(self.p.final_overrider(dyn, f[1])) or fn
                if fn is not None and not self.too_deep(fr, fn):
                    if fn.cls and not fn.static:
                        this = args[0]
                        loc = self.deref(st, fr, this, node)
                        return self.invoke(st, fr, node, fn, loc, self.adapt(st, fr, node, fn, args[1:]))
                    return self.invoke(st, fr, node, fn, None, self.adapt(st, fr, node, fn, args))
            elif f[0] == 'bind':
                full = []
                for a in f[2]:
                    if isinstance(a, tuple) and a and a[0] == 'ph':
                        full.append(args[a[1] - 1] if a[1] - 1 < len(args) else None)
                    else:
                        full.append(a)
                return self.call_value(st, fr, node, f[1], full)
            elif f[0] in ('agg', 'ref'):
                # a function object
                cls = st.store.get(f[1] + DYN)
                if isinstance(cls, str) and cls in self.p.classes:
                    for b in self.p.bases(cls):
                        ops = [x for x in self.p.fns.values() if x.cls == b and x.name == 'operator()' and len(x.params) == len(args)]
                        if len(ops) == 1 and not self.too_deep(fr, ops[0]):
                            return self.invoke(st, fr, dict(node, _u=self.uid(node)), ops[0], f[1], self.adapt(st, fr, node, ops[0], args))
        s = st.copy()
        r = self.c.opaque(self, s, fr, node, 'icall', None, [f] + list(args))
        if r is not None:
            return r
        self.havoc_args(s, fr, dict(node, pm=[2] * len(args)), args)
        return [(s, mk(node.get('t'), ('icall', hashable(f), self.fresh(s, ('ic', self.uid(node))))))]

    def adapt(self, st, fr, node, fn, args):
        out = []
        cv = getattr(self.c, 'convert', None)
        for i, (a, p) in enumerate(zip(args, fn.params)):
            if cv:
                a = cv(self, st, fr, node, a, p)
            if p['ref']:
                if isinstance(a, tuple) and a and a[0] == 'ref':
                    out.append(a)
                elif isinstance(a, tuple) and a and a[0] == 'agg':
                    out.append(('ref', a[1]))
                else:
                    loc = (('T', fr.fid if fr else 0, self.uid(node), 'a%d' % i),)
                    st.store[loc] = a
                    out.append(('ref', loc))
            else:
                if isinstance(a, tuple) and a and a[0] == 'ref' and kind(p['t']) not in ('ptr', 'fn', 'it'):
                    v = self.read(st, a[1], p['t'], fr, node)
                    out.append(v)
                elif isinstance(a, tuple) and a and a[0] == 'ref' and kind(p['t']) in ('ptr', 'it', 'fn') and a[1] in st.store \
                        and isinstance(st.store[a[1]], tuple) and st.store[a[1]][:1] in (('ref',), ('sym',), ('null',)) and a[1][0][0] in ('L', 'T', 'P') and node.get('q', '').startswith('std::function'):
                    out.append(st.store[a[1]])
                else:
                    out.append(a)
        return out

    def e_call(self, st, fr, e):
        q = e.get('q') or ''
        fid = e.get('fn')
        # object
        if 'o' in e:
            out = []
            ot = e['o'].get('t')
            if e.get('arrow'):
                objs = [(s, self.deref(s, fr, v, e)) for s, v in self.ev(st, fr, e['o'])]
            else:
                objs = self.lv(st, fr, e['o'])
            for s, ol in objs:
                for s2, args in self.args(s, fr, e):
                    out.extend(self.do_call(s2, fr, e, q, fid, ol, args))
            return self.dedupe_vals(out) if len(out) > 1 else out
        out = []
        for s, args in self.args(st, fr, e):
            out.extend(self.do_call(s, fr, e, q, fid, None, args))
        return self.dedupe_vals(out) if len(out) > 1 else out

    def do_call(self, st, fr, e, q, fid, ol, args):
        if e.get('noret'):
            self.c.on_assert(self, st, fr, e)
            return []
        st = st.copy()
        if e.get('n') == 'operator()' and ol is not None:
            cv = st.store.get(ol)
            if isinstance(cv, tuple) and cv and cv[0] == 'clo':
                return self.call_value(st, fr, e, cv, args)
        r = self.c.call(self, st, fr, e, fid, ol, args)
        if r is not None:
            return r
        b = MODELS.get(q)
        if EXACT:
            x = EXACT.lookup(q)
            if x is not None:
                r = x(self, st, fr, e, q, ol, args)
                if r is not None:
                    return r
            if EXACT.skips(q):
                b = None
        if b is None:
            for pre, m in PREFIX_MODELS:
                if q.startswith(pre):
                    b = m
                    break
        if b is not None:
            r = b(self, st, fr, e, q, ol, args)
            if r is not None:
                return r
        target = fid
        if e.get('virt') and not e.get('qual') and ol is not None:
            dyn = st.store.get(ol + DYN)
            if dyn is None and not e.get('arrow') and e['o']['k'] in ('mem', 'var') and not e['o'].get('ref') and not e['o'].get('fref') and ol[0][0] in ('L', 'O'):
                dyn = strip(e['o'].get('t'))
            if dyn is not None:
                target = self.p.final_overrider(dyn, fid) or fid
            else:
                target = self.c.devirt(self, st, fid, e)
                if target is None:
                    mr = self.p.meth_by_id.get(fid)
                    if mr and not mr[1]['pure'] and not self.p.all_overriders(fid):
                        target = fid
        f = self.p.fns.get(target) if target else None
        # implicit assignment operators
        if e.get('n') == 'operator=' and ol is not None and len(args) == 1 and (e.get('memcopy') or (f is None and e.get('defaulted')) or (f is not None and f.implicit)):
            a = args[0]
            l = a[1] if isinstance(a, tuple) and a and a[0] in ('ref', 'agg') else None
            if l is not None:
                self.copy_tree(st, l, ol, fr, e)
                return [(st, ('ref', ol))]
        if f is not None and f.body is not None and not self.too_deep(fr, f) and not self.c.no_inline(self, f, e):
            if self.c.may_throw(self, st, fr, e, fid):
                pass
            args = self.default_args(st, fr, f, args)
            return self.invoke(st, fr, e, f, ol, args)
        return self.do_opaque(st, fr, e, fid, ol, args)

    def default_args(self, st, fr, f, args):
        return args

    def do_opaque(self, st, fr, e, fid, ol, args):
        self.opaques[e.get('q')] = self.opaques.get(e.get('q'), 0) + 1
        if self.c.may_throw(self, st, fr, e, fid):
            self.exc.append((st.copy(), ('exc', None), e, fr))
        r = self.c.opaque(self, st, fr, e, fid, ol, args)
        if r is not None:
            return r
        s = st
        t = e.get('t')
        pure = self.c.pure(self, fid, e)
        if pure and not any(m in (2, 5) for m in (e.get('pm') or [])):
            hv = tuple(self.snap(s, a, fr, e, i) for i, a in enumerate(args))
            term = ('app', fid, self.objterm(s, ol)) + hv
        else:
            term = ('ret', fid, self.fresh(s, ('op', self.uid(e))))
            if ol is not None and not e.get('cm') and e.get('cls') and not e.get('q', '').startswith('std::basic_ostream'):
                self.havoc_loc(s, fr, ol, e, e.get('cls'), 'o')
        self.havoc_args(s, fr, e, args)
        if kind(t) == 'void':
            return [(s, None)]
        if e.get('rr'):
            return [(s, ('ref', (('P', term),)))]
        if kind(t) == 'agg' and not _is_enum(t):
            loc = self.temp(fr, e)
            self.drop(s, loc)
            s.store[loc + BASE] = ('at0', (('P', term),))
            return [(s, ('agg', loc))]
        return [(s, mk(t, term))]

    def objterm(self, st, ol):
        """term identifying the object and its modelled version"""
        if ol is None:
            return None
        b = st.store.get(ol + BASE)
        return (ol, b[1] if b and b[0] == 'at0' else None)

    def snap(self, st, a, fr, e, i):
        """value snapshot of an argument for use in a term"""
        if isinstance(a, tuple) and a and a[0] == 'ref':
            v = st.store.get(a[1])
            at_ = e['a'][i].get('t') if i < len(e.get('a') or []) else None
            if at_ and kind(at_) in ('vec', 'blk'):
                return self.read_vec(st, a[1], at_, fr, e)
            if at_ and kind(at_) != 'agg':
                return hashable(self.read(st, a[1], at_, fr, e))
            return ('o', a[1])
        return hashable(a)


# ---------------------------------------------------------------------- helpers
def kind_sp(t):
    t = strip(t)
    return t.startswith(('std::shared_ptr<', 'std::unique_ptr<'))


def vec_elem_type(t):
    t = strip(t)
    if t.startswith('std::vector<'):
        inner = t[len('std::vector<'):]
        d = 0
        for i, c in enumerate(inner):
            if c == '<':
                d += 1
            elif c == '>':
                if d == 0:
                    return inner[:i]
                d -= 1
            elif c == ',' and d == 0:
                return inner[:i]
    return t


def hashable(v):
    try:
        hash(v)
        return v
    except TypeError:
        return ('h', repr(v))


def neg(f):
    if isinstance(f, bool):
        return not f
    if isinstance(f, tuple) and f and f[0] == 'not':
        return f[1]
    return ('not', f)


def nullform(a):
    if a[0] == 'null':
        return True
    if a[0] == 'sym':
        return ('not', ('nn', a))
    return False


def wrap(x, t):
    if t in ('unsigned int',):
        return x & 0xffffffff
    if t in ('unsigned long', 'unsigned long long', 'size_t'):
        return x & 0xffffffffffffffff
    if t == 'int':
        x &= 0xffffffff
        return x - (1 << 32) if x >= 1 << 31 else x
    if t in ('unsigned char',):
        return x & 0xff
    return x


def zero_of(t):
    k = kind(t)
    if k == 'num':
        return ZERO
    if k == 'bool':
        return False
    if k in ('ptr', 'fn'):
        return ('null',)
    if k in ('vec', 'blk'):
        return ('vec', ZERO, ZERO)
    if k == 'str':
        return ('str', '')
    return ZERO if _is_enum(t) else ('sym', ('zero', strip(t)))


def solve_eq(p, facts, ok):
    """p == 0 solved for a merged or opaque scalar: (atom, poly) or None; common factors known not to vanish are cancelled"""
    com = None
    for m in p.t:
        s = {a for a, e in m if e >= 1}
        com = s if com is None else com & s
    for a in com or ():
        if any(isinstance(q, Poly) and len(q.t) == 1 and isinstance(iv, Iv) and not iv.contains0() and
               any(a == b for m in q.t for b, e in m) for q, iv in facts.items()):
            p = p / Poly.atom(a)
    for a in sorted(p.atoms(), key=akey):
        if isinstance(a, tuple) and a and a[0] in ('phi', 'join', 'hnew') and ok(a):
            c = p.t.get(((a, 1),))
            if c is None:
                continue
            rest = p - Poly.atom(a).scale(c)
            if any(mentions(b, a) for b in rest.atoms()):
                continue
            return a, rest.scale(-1 / c)
    return None


def mentions(x, a):
    if x == a:
        return True
    if isinstance(x, Poly):
        return any(mentions(b, a) for b in x.atoms())
    if isinstance(x, tuple):
        return any(mentions(y, a) for y in x if isinstance(y, (tuple, Poly)))
    return False


def is_lat(loc):
    return isinstance(loc[-1], tuple) and loc[-1][0] == 'lat'


def congr_key(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'ref' and isinstance(v[1][-1], tuple) and v[1][-1][0] == 'kv' and isinstance(v[1][-1][1], Poly):
        return v[1][-1][1]
    return None


def phi_val(term, v):
    if isinstance(v, Poly):
        return Poly.atom(term)
    if isinstance(v, bool):
        return ('t', term)
    if isinstance(v, tuple) and v:
        if v[0] == 'vec':
            return ('vec', Poly.atom(('V', term)), v[2])
        if v[0] in ('cmp', 'not', 't', 'nn', 'peq'):
            return ('t', term)
        if v[0] == 'ref' and isinstance(v[1][-1], tuple) and v[1][-1][0] in ('i', 'kv') and isinstance(v[1][-1][1], Poly):
            return ('ref', v[1][:-1] + ((v[1][-1][0], Poly.atom(term)),))
        if v[0] == 'mit':
            return ('mit', v[1], ('sym', term))
    return ('sym', term)


def join_val(term, a, b):
    if a is None:
        a = b
    if isinstance(a, tuple) and a and a[0] == 'ref' and isinstance(b, tuple) and b and b[0] == 'ref' and a[1][:-1] == b[1][:-1] \
            and isinstance(a[1][-1], tuple) and isinstance(b[1][-1], tuple) and a[1][-1][0] == b[1][-1][0] and a[1][-1][0] in ('i', 'kv') \
            and isinstance(a[1][-1][1], Poly) and isinstance(b[1][-1][1], Poly):
        return ('ref', a[1][:-1] + ((a[1][-1][0], Poly.atom(term)),))
    if isinstance(a, tuple) and a and a[0] == 'ref':
        return ('sym', term)
    return phi_val(term, a)


_phi_cache = {}


def _has_phi(x, uid):
    k = (x, uid)
    try:
        r = _phi_cache.get(k)
    except TypeError:
        return False
    if r is not None:
        return r
    r = _has_phi0(x, uid)
    _phi_cache[k] = r
    return r


def _has_phi0(x, uid):
    if isinstance(x, Poly):
        return any(_has_phi(a, uid) for a in x.atoms())
    if isinstance(x, tuple):
        if len(x) >= 2 and x[0] == 'phi' and x[1] == uid:
            return True
        return any(_has_phi(y, uid) for y in x if isinstance(y, (tuple, Poly)))
    return False


def _has_phi2(a, lu, phi):
    return _has_phi(a, lu)


def _only_idx(a, lu):
    """phi of loop lu occurs in a only as the index atom ('phi', lu, 'i')"""
    if isinstance(a, Poly):
        return all(_only_idx(x, lu) for x in a.atoms())
    if isinstance(a, tuple):
        if len(a) == 3 and a[0] == 'phi' and a[1] == lu:
            return a[2] == 'i'
        return all(_only_idx(x, lu) for x in a if isinstance(x, (tuple, Poly)))
    return True


def subst_idx(x, lu):
    """replace the loop's own index atom by a canonical bound variable"""
    if isinstance(x, Poly):
        return x.map_atoms(lambda a: Poly.atom(subst_idx(a, lu)))
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'phi' and x[1] == lu and x[2] == 'i':
            return ('bound', 'i')
        return tuple(subst_idx(y, lu) if isinstance(y, (tuple, Poly)) else y for y in x)
    return x


def at(p, idx):
    """element idx of a vector linear form"""
    return p.map_atoms(lambda a: Poly.atom(('at', a, idx)) if is_v(a) else None)


def nonneg(p):
    """provably >= 0: sums of products of sizes with positive coefficients"""
    return all(c >= 0 and all(is_unsigned_atom(a) and e > 0 for a, e in m) for m, c in p.t.items())


def _is_sel(p):
    return any(is_v(a) and isinstance(a[1], tuple) and a[1][0] == 'sel' for m in p.t for a, e in m)


def blk(p, frm, size):
    return p.map_atoms(lambda a: blk1(a, frm, size) if is_v(a) else None)


def blk1(a, frm, size):
    x = a[1]
    if size == ZERO:
        return ZERO
    if isinstance(x, tuple) and x and x[0] == 'blk':
        return Poly.atom(('V', ('blk', x[1], x[2] + frm, size)))
    if isinstance(x, tuple) and x and x[0] == 'upd' and all(c[0] in ('i', 'b') for c, v in x[2]):
        hit = None
        for c, v in x[2]:
            n = c[2] if c[0] == 'b' else ONE
            if nonneg(frm - c[1]) and nonneg(c[1] + n - frm - size):
                if c[0] == 'b' and isinstance(v, tuple) and v[0] == 'vec' and hit is None:
                    hit = blk(v[1], frm - c[1], size) if (frm, size) != (c[1], n) else v[1]
                    continue
                hit = None
                break
            if not (nonneg(c[1] - frm - size) or nonneg(frm - c[1] - n)):
                return Poly.atom(('V', ('blk', a, frm, size)))
        else:
            return hit if hit is not None else blk(x[1], frm, size)
    return Poly.atom(('V', ('blk', a, frm, size)))


def unat(v, lu):
    """inverse of `at` at the loop index; None if v is not elementwise"""
    idx = Poly.atom(('phi', lu, 'i'))
    bad = [False]

    def f(a):
        if isinstance(a, tuple) and a[0] == 'at' and a[2] == idx and not _has_phi(a[1], lu):
            return Poly.atom(a[1])
        if _has_phi(a, lu):
            # elementwise function: f(x[i]) -> vector atom if it only depends on i through elements
            bad[0] = True
        return None
    r = v.map_atoms(f)
    if bad[0]:
        if _only_idx(v, lu):
            return Poly.atom(('V', ('map', subst_idx(v, lu))))
        return None
    for m in r.t:
        nv = sum(abs(e) for a, e in m if is_v(a))
        if nv != 1:
            # nonlinear elementwise function or plain scalar
            return Poly.atom(('V', ('map', subst_idx(v, lu))))
    return r


MODELS = {}
PREFIX_MODELS = []


def model(*names):
    def d(f):
        for n in names:
            if n.endswith('*'):
                PREFIX_MODELS.append((n[:-1], f))
            else:
                MODELS[n] = f
        return f
    return d
