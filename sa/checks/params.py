"""Named parameters: what is set under a key is reported under it, and nothing else changes."""
import exact
from absint import kind, strip, BASE, SIZE, DYN, hashable
from entries import Run, EntryClient
from exact import fld, put_key, keys, kloc
from harness import q_of, new_object, method, N, VD
from program import AnalysisError, walk
from scen import short
from terms import Poly, ZERO, ONE
from checks.linalg import show

OP = 'ctm::OptionalParameters'
VAL = ('f', OP + '::Value', '#val')
PM = 'std::map<std::basic_string<char>, ctm::OptionalParameters::Value>'


def tag(t):
    """kind of a parameter"""
    t = (t or '').replace('const ', '').replace('&', '').strip()
    if 'shared_ptr<' in t:
        return 'ptr:' + t[t.index('shared_ptr<') + 11:-1]
    if 'char' in t or 'basic_string' in t:
        return 'string'
    return {'unsigned int': 'unsigned', '_Bool': 'bool'}.get(t, t)


class PClient(EntryClient):
    """a parameter value holds what it was made from"""

    def __init__(self, p):
        super().__init__()
        self.names = type_names(p)
        self.kinds = []

    def on_assert(self, I, st, fr, e):
        self.asserts.append(fr.where(e) if fr else '')

    def vcall(self, I, st, fr, n, fid, ol, args):
        f = I.p.fns.get(fid)
        if ol and isinstance(ol[-1], tuple) and ol[-1][0] == 'sub':
            save = I.exc
            r = I.run(method(I.p, ol[-1][1], n['n'], len(args)), ol[:-1], args, st)
            I.exc = save + I.exc
            return r
        cls = f.cls if f else n.get('cls')
        if cls == OP + '::Value' and f:
            if f.ctor and not (f.copy or f.move):
                if len(args) == 1:
                    a = args[0]
                    t = f.params[0].get('t')
                    if isinstance(a, tuple) and a and a[0] in ('ref', 'agg'):
                        l = a[1]
                        a = I.read(st, l, strip(t), fr, n)
                    st.store[ol + (VAL,)] = ('held', tag(t), hashable(a))
                    return [(st, None)]
                if not args:
                    return [(st, None)]
            elif f.name == 'value' or f.name.startswith('operator ') :
                v = st.store.get(ol + (VAL,))
                want = tag(f.ret)
                if not v or v[0] != 'held':
                    raise AnalysisError('a parameter without a value is converted at %s' % fr.where(n))
                return [(st, self.value(I, st, fr, n, v, want))]
        if (q_of(n) == OP + '::appendNestedHelp') and f:
            l = I.temp(fr, n, 'help')
            st = st.copy()
            I.drop(st, l)
            st.store[l + BASE] = ('fresh',)
            st.store[l + (VAL,)] = ('held', 'string', ('str', 'help'))
            return [(st, ('agg', l))]
        return None

    def call(self, I, st, fr, node, fid, ol, args):
        q = q_of(node)
        if ol and ol[0][0] == 'P' and isinstance(ol[0][1], tuple) and ol[0][1][0] == 'null':
            self.bad.append(('%s is called on a null pointer' % q.replace('ctm::math::', ''), fr.where(node)))
            return []
        if q.startswith(('std::list::', 'std::__cxx11::list::')) and node.get('n') == 'push_back':
            v = args[0]
            if isinstance(v, tuple) and v and v[0] == 'ref' and any(k == v[1] and isinstance(w, tuple) and w[:1] == ('ref',) for k, w in ((v[1], st.store.get(v[1])),)):
                v = st.store[v[1]]
            st = st.copy()
            n = st.store.get(ol + (SIZE,), ZERO)
            # the base subobject (several of the same type): the class whose constructor is running
            if isinstance(v, tuple) and v[:1] == ('ref',) and fr.parent and fr.fn.ctor and fr.this == v[1]:
                v = ('ref', v[1] + (('sub', fr.parent.fn.cls),))
            st.store[ol + (('i', n),)] = v
            st.store[ol + (SIZE,)] = n + ONE
            return [(st, None)]
        return super().call(I, st, fr, node, fid, ol, args)

    def value(self, I, st, fr, n, v, want):
        if want != v[1] and v[1] == 'string' and want.startswith('ptr:') and v[2][0] == 'str':
            return self.component(I, st, fr, n, 'ctm::Factory<%s>' % want[4:], v[2][1]) if v[2][1] else ('null',)
        if v[1] != want and not {v[1], want} <= {'int', 'unsigned'}:
            self.kinds.append('a parameter that is reported as %s is taken as %s at %s' % (v[1], want, fr.where(n)))
        return v[2]

    def convert(self, I, st, fr, n, a, p):
        """a parameter value bound to an argument of another type"""
        if isinstance(a, tuple) and a and a[0] in ('ref', 'agg') and (p['t'] or '').find(OP) < 0:
            v = st.store.get(a[1] + (VAL,))
            if v:
                return self.value(I, st, fr, n, v, tag(p['t']))
        return a

    def component(self, I, st, fr, node, iface, name):
        """a new object of the type registered under the name"""
        cls = [c for c in self.names.get(name, ()) if ('ctm::Factory<' in iface and I.p.is_a(c, iface[iface.index('<') + 1:-1]))]
        if len(cls) != 1:
            raise AnalysisError('factory type %r of %s at %s' % (name, iface, fr.where(node)))
        loc = (('O', 'new', cls[0], I.fresh(st, ('newinst', I.uid(node)))),)
        save = I.exc
        ss = new_object(I, st, loc, cls[0])
        I.exc = save
        if len(ss) != 1:
            raise AnalysisError('construction of %s' % cls[0])
        s = ss[0]
        st.store, st.facts, st.cnt = s.store, s.facts, s.cnt
        return ('ref', loc)


def type_names(p):
    """registered name -> classes"""
    out = {}
    for f in p.fns.values():
        if f.name == 'typeId' and (f.cls or '').startswith('ctm::ImplementationTypeTraits<'):
            for n in walk(f.body):
                if n.get('k') == 'lit' and n.get('lk') == 's':
                    out.setdefault(n['v'], []).append(f.cls[len('ctm::ImplementationTypeTraits<'):-1].strip())
    for k, v in (p.vars.items() if isinstance(p.vars, dict) else ()):
        t = v.get('t') or ''
        if t.startswith('ctm::FactoryMixin<') and t.endswith('::Registrator'):
            for n in walk(v.get('init')):
                if n.get('k') == 'lit' and n.get('lk') == 's':
                    out.setdefault(n['v'], []).append(first_arg(t))
    return out


def first_arg(t):
    return exact.targs(t[:-len('::Registrator')])[0]


class PRun(Run):
    def __init__(self, p):
        super().__init__(p, PClient(p))
        self.bad = []

    def map_(self, st, name, vals):
        """create the parameter set `name`"""
        loc = self.loc(name)
        self.I.drop(st, loc)
        exact.empty(st, loc, 'map')
        for k, v in vals.items():
            l = put_key(self.I, st, loc, k, ('str', k))
            st.store[fld(l, 'second') + BASE] = ('fresh',)
            st.store[fld(l, 'second') + (VAL,)] = ('held',) + v

    def get(self, st, fn='o_get'):
        """[(state, {key: (kind, value)})]"""
        out = []
        name = 'got'
        st = st.copy()
        self.map_(st, name, {})
        for s, _ in self.raw(st, fn, ['o', name]):
            loc = self.loc(name)
            d = {}
            for k in keys(s, loc):
                v = s.store.get(fld(kloc(loc, k), 'second') + (VAL,))
                d[k] = v[1:] if v else None
            out.append((s, d))
        return out

    def set(self, st, vals):
        st = st.copy()
        self.map_(st, 'set', vals)
        return [s for s, _ in self.raw(st, 'o_set', ['o', 'set'])]


def literals(p, cls):
    out = set()
    for b in p.bases(cls):
        c = p.classes.get(b)
        for f in p.fns.values():
            if f.cls == b and not b.startswith(('ctm::OptionalParameters', 'ctm::Factory')) and f.name not in ('helpOnParameters', 'helpOnType'):
                for n in walk(f.body):
                    if n.get('k') == 'lit' and n.get('lk') == 's':
                        out.add(n['v'])
    return out


# keys whose objects are parts of the object under another key
PARTS = {'NewtonSolver': {'itperf': ('ddir', 'jacobian', 'jtrim', 'linsearch', 'err'), 'ddir': ('jacobian', 'jtrim'), 'jacobian': ('jtrim',)}}
ORDER = ('itperf', 'ddir', 'jacobian')


def parts_of(name):
    return {x for v in PARTS.get(name, {}).values() for x in v}


def registered(p, iface):
    return sorted(c for c in p.subclasses(iface) if any(b['name'].startswith('ctm::FactoryMixin<') for b in p.classes[c]['bases']))


def values(r, st, cls, key, kt, old):
    """values to set: [(state, value)]"""
    if kt == 'bool':
        return [(st, True), (st, False)]
    if kt in ('double', 'int', 'unsigned', 'float'):
        if key == 'size':
            return []
        x = Poly.atom(('V', 'new ' + key))
        st = st.copy()
        r.I.assume(st, ('cmp', '<', -x), True)
        if kt in ('int', 'unsigned'):
            r.I.assume(st, ('cmp', '<=', x - Poly.const(2 ** (31 if kt == 'int' else 32) - 1)), True)
        return [(st, x)]
    if kt == 'string':
        return [(st, ('str', x)) for x in sorted(literals(r.p, cls) | {'some other text'})]
    out = []
    if kt.startswith('ptr:'):
        i = kt[4:]
        out.append((st, ('null',)))
        cs = registered(r.p, i)
        for c in cs[:1] + cs[-1:] if len(cs) > 1 else cs:
            loc = (('R', 'new ' + key),)
            for s in new_object(r.I, st.copy(), loc, c):
                out.append((s, ('ref', loc)))
    return out


def txt(v):
    if isinstance(v, tuple) and v:
        return {'null': 'nothing', 'ref': 'an object', 'str': repr(v[-1])}.get(v[0], str(v)[:60])
    return show(v) if isinstance(v, Poly) else str(v)


def same(a, b):
    return a == b


def differ(d, want, skip=()):
    """keys of d with other values than wanted"""
    out = []
    for k in sorted(set(d) | set(want)):
        if k in skip:
            continue
        if k not in d:
            out.append('%s is no longer reported' % k)
        elif k not in want:
            out.append('%s is reported' % k)
        elif d[k][1] != want[k][1]:
            out.append('%s is reported as %s instead of %s' % (k, txt(d[k][1]), txt(want[k][1])))
    return out


def one_class(ctx, cls):
    p = ctx.p
    name = short(cls)
    where = p.classes[cls].get('loc') or name
    parts = PARTS.get(name, {})

    def fresh():
        r = PRun(p)
        r.obj('o', cls)
        if not r.sts:
            raise AnalysisError('%s is not constructed' % cls)
        return r

    def done(r, rule, subj, bad, n=1):
        for w, l in dict.fromkeys(r.c.bad):
            bad.append('%s (%s)' % (w, l))
        for l in r.c.asserts:
            bad.append('an assertion fails (%s)' % l)
        bad += dict.fromkeys(r.c.kinds)
        ctx.count('histories', n)
        ctx.ob(rule, '%s: %s' % (name, subj), not bad, where, '; '.join(dict.fromkeys(bad))[:600])

    r = fresh()
    base = [(s, d) for s0 in r.sts for s, d in r.get(s0)]
    if not base:
        raise AnalysisError('%s: parameters() gives no result' % cls)
    keys_ = list(base[0][1])
    kinds = {k: v[0] for k, v in base[0][1].items()}
    ctx.count('parameters', len(keys_))

    # names
    bad = []
    helps = [d for s0 in r.sts for s, d in r.get(s0, 'o_help')]
    for h in helps:
        for k in h:
            if k not in keys_:
                bad.append('help is given for %s, which is not a parameter' % k)
        if h:
            bad += ['no help is given for %s' % k for k in keys_ if k not in h]
    done(r, 'names', 'help and values', bad)

    # nothing set, nothing changed
    r = fresh()
    bad = []
    for vals in ({}, {'no such parameter': ('string', ('str', 'x'))}):
        for s0 in r.sts:
            for s1, before in r.get(s0):
                for s2 in r.set(s1, vals):
                    for s3, after in r.get(s2):
                        bad += differ(after, before)
    bad += ['an exception is thrown' for e in r.excs]
    done(r, 'absent keys', 'nothing is set', bad)

    # one parameter
    for k in keys_:
        r = fresh()
        bad, ok, n = [], set(), 0
        kt = kinds[k]
        for s0 in r.sts:
            for s1, before in r.get(s0):
                for sv, v in values(r, s1, cls, k, kt, before[k][1]):
                    n += 1
                    nb = len(r.excs)
                    for s2 in r.set(sv, {k: (kt, v)}):
                        for s3, after in r.get(s2):
                            want = dict(before)
                            want[k] = (kt, v)
                            skip = parts.get(k, ())
                            if v == ('null',):
                                after = {x: y for x, y in after.items()}
                            bad += ['after %s is set to %s, %s' % (k, txt(v), t) for t in differ(after, want, skip)]
                            ok.add(hashable(v))
                    new = r.excs[nb:]
                    if new and kt != 'string':
                        bad.append('an exception is thrown when %s is set to %s (%s)' % (k, txt(v), new[0][1][3].where(new[0][1][2]) if new[0][1][3] else ''))
                    for e in new:
                        for s3, after in r.get(e[1][0]):
                            bad += ['after %s is refused for %s, %s' % (txt(v), k, t) for t in differ(after, before)]
        if kt == 'string' and len(ok) < 2:
            bad.append('fewer than two values of %s are accepted' % k)
        done(r, 'one key', k, bad, n)

    # all parameters at once
    for flip in (False, True):
        r = fresh()
        bad = []
        for s0 in r.sts:
            for s1, before in r.get(s0):
                vals = {}
                s = s1
                for k in keys_:
                    vs = values(r, s, cls, k, kinds[k], before[k][1])
                    if kinds[k] == 'string':
                        vs = [x for x in vs if accepted(r, x, k)]
                    vs = [x for x in vs if x[1] != before[k][1] and (x[1] != ('null',) or k not in parts)] or vs
                    if not vs:
                        continue
                    s, v = vs[-1 if flip else 0]
                    vals[k] = (kinds[k], v)
                nb = len(r.excs)
                want = dict(before)
                want.update(vals)
                got = [d for s2 in r.set(s, vals) for s3, d in r.get(s2)]
                if not got or len(r.excs) > nb:
                    bad.append('an exception is thrown')
                for after in got:
                    bad += differ(after, want)
        done(r, 'all keys', 'other values' if flip else 'values', bad)


def accepted(r, x, k):
    s, v = x
    n = len(r.excs)
    res = r.set(s, {k: ('string', v)})
    r.excs = r.excs[:n]
    return bool(res)


def params(ctx):
    """Element-wise forward abstract interpretation of setParameters / parameters / helpOnParameters of every class."""
    p = ctx.p
    cs = []
    for c in sorted(p.subclasses(OP)):
        ms = [p.fns[m['id']] for b in p.bases(c) for m in (p.classes.get(b) or {'methods': []})['methods'] if m['id'] in p.fns]
        if any(f.name == 'setParameters' and f.cls != OP for f in ms) and not c.startswith(('verif_entry', '(anon')) and not abstract(p, c):
            cs.append(c)
    from checks import paramtext as pt
    ctx.pmap(pt.one, [(one_class, c) for c in cs] + [(pt.scalars,), (pt.initial_state,)] + [(f, i) for f, i in pt.clone_items(p)])
    ctx.floor('classes', len(cs), 15)


def abstract(p, c):
    """no object of exactly this class is made: it has no registered name and is a base of registered classes"""
    return not any(b['name'].startswith('ctm::FactoryMixin<') for b in p.classes[c]['bases']) and any(x != c for x in p.subclasses(c))
