"""Texts of named parameters: what is written is what is read back, at all levels."""
import exact
import texts
from absint import BASE, SIZE, hashable
from checks.params import PClient, PRun, VAL, PM, OP, registered, values, txt, parts_of, accepted
from exact import fld, keys, kloc
from harness import q_of, new_object, method, VD
from program import AnalysisError, walk
from scen import short
from terms import Poly, ZERO, ONE

MAXI = Poly.const(2 ** 31 - 1)
MAXU = Poly.const(2 ** 32 - 1)
LANG = {'int': texts.INT, 'unsigned': texts.UNS, 'fp': texts.FP}
TXT = ('f', OP + '::Value', 'm_value')
NESTED = ('f', OP + '::Value', 'm_nestedParameters')


def printed(v):
    """('int'|'unsigned'|'fp', value, precision) of a printed number"""
    if isinstance(v, tuple) and v[:1] == ('sym',) and isinstance(v[1], tuple) and v[1][:1] == ('printed',):
        return v[1][1:]
    return None


class TClient(PClient):
    """texts: a printed number is a term that remembers the number; patterns accept by language inclusion"""

    dynamic_types = True

    def __init__(self, p):
        super().__init__(p)
        self.rejected = []
        self.unknown = []

    def vcall(self, I, st, fr, n, fid, ol, args):
        q = q_of(n)
        if q.startswith('ctm::lang::Is') and fid in I.p.fns:
            f = I.p.fns[fid]
            ls = [x['v'] for x in walk(f.body) if x.get('k') == 'lit' and x.get('lk') == 's']
            v = args[0]
            if len(ls) != 1:
                self.unknown.append(q)
                return [(st, True)]
            try:
                if v[0] == 'str':
                    return [(st, texts.literal(v[1], ls[0]))]
                pr = printed(v)
                if pr:
                    rel, ex = texts.relation(LANG[pr[0]], ls[0])
                    if rel == 'in':
                        return [(st, True)]
                    self.rejected.append(('%s does not accept the text %r of a number' % (q, ex), fr.where(n)))
                    return [(st, False)] if rel == 'out' else [(st, True), (st.copy(), False)]
            except ValueError:
                self.unknown.append(q)
                return [(st, True)]
            raise AnalysisError('text %s at %s' % (str(v)[:80], fr.where(n)))
        f = I.p.fns.get(fid)
        if f and f.cls and f.cls.startswith('ctm::FactoryMixin<') and f.name == 'staticTypeId':
            c = exact.targs(f.cls)[0]
            names = [k for k, cs in self.names.items() if c in cs]
            if len(names) != 1:
                raise AnalysisError('names of %s: %s' % (c, names))
            return [(st, ('str', names[0]))]
        if f and f.cls == OP + '::Value':
            return None
        return super().vcall(I, st, fr, n, fid, ol, args)

    def convert(self, I, st, fr, n, a, p):
        t = (p['t'] or '')
        if isinstance(a, tuple) and a and a[0] in ('ref', 'agg') and t.find(OP) < 0 and (a[1] + (TXT,)) in st.store:
            want = t.replace('const ', '').replace('&', '').strip()
            ms = [f for f in I.p.fns.values() if f.cls == OP + '::Value' and f.name == 'value' and strip_t(f.ret) == want]
            if not ms:
                raise AnalysisError('no conversion of a parameter to %s' % want)
            save = I.exc
            I.exc = []
            rs = I.run(ms[0], a[1], [], st.copy())
            mine, I.exc = I.exc, save
            if len(rs) != 1 or mine:
                raise AnalysisError('conversion of a parameter to %s at %s' % (want, fr.where(n)))
            s, v = rs[0]
            st.store, st.facts, st.cnt = s.store, s.facts, s.cnt
            return v
        return a

    def call(self, I, st, fr, node, fid, ol, args):
        q = q_of(node)
        n = node.get('n')
        if q == 'std::to_string':
            t = strip_t((node.get('pt') or [''])[0]) if node.get('pt') else ''
            x = num(I, st, fr, node, args, 0)
            if x.cval() is not None and x.cval() == int(x.cval()):
                return [(st, ('str', str(int(x.cval()))))]
            ptypes = I.p.fns[fid].params if fid in I.p.fns else []
            k = arg_type(node)
            if k == 'double':
                return [(st, ('sym', ('printed', 'fp', x, 'fixed 6')))]
            return [(st, ('sym', ('printed', 'unsigned' if 'unsigned' in k else 'int', x, None)))]
        if q in ('std::stoi', 'std::stol', 'std::stoll', 'std::stoul', 'std::stoull', 'std::stod', 'std::stof', 'std::stold'):
            v = args[0]
            if isinstance(v, tuple) and v[:1] == ('ref',):
                v = I.read(st, v[1], 'std::basic_string<char>', fr, node)
            return self.parse(I, st, fr, node, q[5:], v)
        if q == 'std::setprecision':
            return [(st, ('sym', ('setprecision', num(I, st, fr, node, args, 0))))]
        if q.startswith('std::') and n == 'precision' and ol and args:
            st = st.copy()
            st.store[ol + ('#prec',)] = num(I, st, fr, node, args, 0)
            return [(st, ZERO)]
        if q in ('std::operator<<', 'std::basic_ostream::operator<<'):
            l, vs = (ol, list(args)) if ol else (args[0][1], list(args[1:]))
            v = vs[0]
            if isinstance(v, tuple) and v[:1] == ('ref',):
                v = I.read(st, v[1], 'double' if l is None else arg_type(node, -1) or 'double', fr, node)
            st = st.copy()
            if isinstance(v, tuple) and v[:1] == ('agg',):
                v = st.store.get(v[1], v)
            if isinstance(v, tuple) and v[:1] == ('sym',) and isinstance(v[1], tuple) and v[1][:1] == ('setprecision',):
                st.store[l + ('#prec',)] = v[1][1]
                return [(st, ('ref', l))]
            if isinstance(v, Poly):
                pr = st.store.get(l + ('#prec',), Poly.const(6)).cval()
                v = ('sym', ('printed', 'fp', v, pr))
            if not (isinstance(v, tuple) and v and v[0] in ('str', 'sym')):
                raise AnalysisError('output of %s at %s' % (str(v)[:60], fr.where(node)))
            old = st.store.get(l + ('#text',))
            st.store[l + ('#text',)] = v if old is None else ('str', old[1] + v[1]) if old[0] == v[0] == 'str' else ('sym', ('cat', old, v))
            return [(st, ('ref', l))]
        if n == 'str' and ol and not args and 'stringstream' in q:
            return [(st, st.store.get(ol + ('#text',), ('str', '')))]
        return super().call(I, st, fr, node, fid, ol, args)

    def parse(self, I, st, fr, node, fn, v):
        pr = printed(v)
        if pr is None:
            if v[0] != 'str':
                raise AnalysisError('text %s at %s' % (str(v)[:80], fr.where(node)))
            return self.number(I, st, fr, node, fn, v[1])
        k, x, prec = pr
        if fn in ('stod', 'stold', 'stof'):
            if fn == 'stof' or k == 'fp' and (not isinstance(prec, (int, Poly)) and not hasattr(prec, 'numerator') or prec < 16):
                return [(st, Poly.atom(('rounded', fn, x, str(prec))))]
            return [(st, x)]
        if k == 'fp':
            return [(st, Poly.atom(('truncated', x)))]
        lo, hi = {'stoi': (-(2 ** 31), 2 ** 31 - 1)}.get(fn, (None, None))
        if hi is None:
            if fn.startswith('stou'):
                out = []
                for s, neg in I.branch(st, ('cmp', '<', x)):
                    out.append((s, x + Poly.const(2 ** 64) if neg else x))
                return out
            return [(st, x)]
        out = []
        for s, big in I.branch(st, ('cmp', '<', Poly.const(hi) - x)):
            if big:
                exact.throw(I, s, fr, node)
            else:
                for s2, small in I.branch(s, ('cmp', '<', x - Poly.const(lo))):
                    if small:
                        exact.throw(I, s2, fr, node)
                    else:
                        out.append((s2, x))
        return out

    def number(self, I, st, fr, node, fn, s):
        """constant text"""
        import re
        if fn in ('stod', 'stold', 'stof'):
            m = re.match(r'\s*[+-]?([0-9]*\.?[0-9]+|[0-9]+\.?[0-9]*)([eE][+-]?[0-9]+)?', s)
            if not m:
                return exact.throw(I, st, fr, node, 'invalid_argument')
            from fractions import Fraction
            return [(st, Poly.const(Fraction(m.group().strip())))]
        m = re.match(r'\s*[+-]?[0-9]+', s)
        if not m:
            return exact.throw(I, st, fr, node, 'invalid_argument')
        x = int(m.group())
        if fn == 'stoi' and not -2 ** 31 <= x < 2 ** 31 or fn.startswith('stou') and abs(x) >= 2 ** 64 or not fn.startswith('stou') and not -2 ** 63 <= x < 2 ** 63:
            return exact.throw(I, st, fr, node)
        if fn.startswith('stou') and x < 0:
            x += 2 ** 64
        return [(st, Poly.const(x))]


def strip_t(t):
    return (t or '').replace('const ', '').replace('&', '').strip()


def arg_type(node, i=0):
    a = node.get('args') or node.get('a') or []
    try:
        x = a[i]
    except IndexError:
        return ''
    return strip_t(x.get('t')) if isinstance(x, dict) else ''


def num(I, st, fr, node, args, i):
    v = args[i]
    if isinstance(v, tuple) and v[:1] == ('ref',):
        v = I.read(st, v[1], arg_type(node, i) or 'double', fr, node)
    if not isinstance(v, Poly):
        raise AnalysisError('number %s at %s' % (str(v)[:60], fr.where(node)))
    return v


class TRun(PRun):
    def __init__(self, p):
        super().__init__(p)
        self.I.c = self.c = TClient(p)


def scalars(ctx):
    p = ctx.p
    where = p.classes[OP + '::Value'].get('loc') or OP

    def done(r, rule, subj, bad):
        bad = list(bad) + ['%s (%s)' % x for x in r.c.bad + r.c.rejected]
        ctx.count('histories', 1)
        ctx.count('texts not analysed', len(r.c.unknown))
        ctx.ob(rule, subj, not bad, where, '; '.join(dict.fromkeys(bad))[:600])

    for fn, what, lo, hi in (('t_int', 'integers', -2 ** 31, 2 ** 31 - 1), ('t_uns', 'unsigned integers', 0, 2 ** 32 - 1), ('t_dbl', 'real numbers', None, None)):
        r = TRun(p)
        x = Poly.atom(('V', 'x'))
        st = r.sts[0].copy()
        if lo is not None:
            r.I.assume(st, ('cmp', '<=', Poly.const(lo) - x), True)
            r.I.assume(st, ('cmp', '<=', x - Poly.const(hi)), True)
        res = r.raw(st, fn, [x])
        bad = ['a number is refused' for e in r.excs] + ['%s is read as %s' % ('x', str(v)[:80]) for s, v in res if v != x]
        if not res:
            bad.append('no number is read back')
        done(r, 'texts', what, bad)
    for b in (True, False):
        r = TRun(p)
        res = r.raw(r.sts[0].copy(), 't_bool', [b])
        done(r, 'texts', 'truth value %s' % str(b).lower(), ['refused' for e in r.excs] + ['read as %s' % str(v)[:60] for s, v in res if bool_of(v) is not b] + ([] if res else ['not read back']))

    def read(fn, text):
        r = TRun(p)
        st = r.sts[0].copy()
        st.store[r.loc('s')] = ('str', text)
        res = r.raw(st, fn, ['s'])
        return r, res

    for fn, what, good, refuse in (
            ('t_toInt', 'integers', {'0': 0, '17': 17, '-17': -17, '+4': 4, '2147483647': 2 ** 31 - 1, '-2147483648': -2 ** 31, '007': 7},
             ('', 'x', '1.5', '1e3', '4x', 'x4', ' 4', '4 ', '2147483648', '-2147483649', '99999999999999999999', '-', '+', 'true')),
            ('t_toUns', 'unsigned integers', {'0': 0, '17': 17, '4294967295': 2 ** 32 - 1, '+4': 4},
             ('', 'x', '1.5', '4x', '-1', '-4294967295', '4294967296', '99999999999999999999', '18446744073709551615', ' 4', '-')),
            ('t_toDbl', 'real numbers', {'0': 0, '1.5': (3, 2), '-2.25': (-9, 4), '.5': (1, 2), '5.': 5, '1e3': 1000, '-1.5E-1': (-3, 20), '+1e+2': 100},
             ('', 'x', '1.5x', 'e5', '1e', '1e+', '.', '-', '1,5', '0x10', 'nan', 'inf', '1.5 ', ' 1.5', '1.2.3', '--1')),
            ('t_toBool', 'truth values', {'true': True, 'false': False, '1': True, '0': False}, ('', 'x', 'True', '2', 'tru', 'truex', '10', '-1', ' 1'))):
        for text, want in good.items():
            r, res = read(fn, text)
            if isinstance(want, bool):
                ok = all(bool_of(v) is want for s, v in res)
            else:
                from fractions import Fraction
                w = Poly.const(Fraction(*want) if isinstance(want, tuple) else want)
                ok = all(v == w for s, v in res)
            bad = ['%r is refused' % text for e in r.excs] + ([] if ok else ['%r is read as %s' % (text, [str(v)[:40] for s, v in res])]) + ([] if res or r.excs else ['nothing is read'])
            done(r, 'texts read', '%s: %r' % (what, text), bad)
        for text in refuse:
            r, res = read(fn, text)
            done(r, 'texts refused', '%s: %r' % (what, text), ['%r is read as %s' % (text, str(v)[:40]) for s, v in res] + ([] if r.excs or res else ['neither read nor refused']))


def bool_of(v):
    if isinstance(v, Poly):
        v = v.cval()
        return None if v is None else bool(v)
    return v if isinstance(v, bool) else None


# ------------------------------------------------------------------ objects
IFACES = {'t_solver': ('so', 'so2', 'OdeSolver'), 't_newton': ('ns', 'ns2', 'NewtonSolverInterface'), 't_rhs': ('rh', 'rh2', 'OdeRhs'), 't_init': ('is', 'is2', 'OdeInitState')}


def tree(I, st, loc):
    """{key: (text, tree or None)} of a parameter map"""
    out = {}
    for k in keys(st, loc):
        l = fld(kloc(loc, k), 'second')
        n = st.store.get(l + (NESTED,))
        t = st.store.get(l + (TXT,), ('str', ''))
        out[k] = (t, tree(I, st, n[1]) if isinstance(n, tuple) and n[:1] == ('ref',) else None)
    return out


def diff(a, b, path=''):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            out.append('%s%s is not in the copy' % (path, k))
        elif k not in a:
            out.append('%s%s is only in the copy' % (path, k))
        else:
            if a[k][0] != b[k][0]:
                out.append('%s%s is %s instead of %s in the copy' % (path, k, text(b[k][0]), text(a[k][0])))
            if (a[k][1] is None) != (b[k][1] is None):
                out.append('%s%s has %s nested parameters in the copy' % (path, k, 'no' if b[k][1] is None else ''))
            elif a[k][1] is not None:
                out += diff(a[k][1], b[k][1], path + k + '.')
    return out


def text(v):
    return repr(v[1]) if v[0] == 'str' else str(v[1])[:60]


def clone(ctx, item):
    fn, cls, flip = item
    p = ctx.p
    src, dst, iface = IFACES[fn]
    where = p.classes[cls].get('loc') or cls
    r = PRun(p)
    r.obj('o', cls)
    bad, n = [], 0
    got = 0
    for s0 in r.sts:
        for s1, before in r.get(s0):
            # other values, set with the abstraction of texts by values
            vals, s = {}, s1
            for k in before:
                vs = values(r, s, cls, k, before[k][0], before[k][1])
                if before[k][0] == 'string':
                    vs = [x for x in vs if accepted(r, x, k)]
                vs = [x for x in vs if x[1] != before[k][1] and x[1] != ('null',)] or vs
                if vs and flip is not None:
                    s, v = vs[-1 if flip else 0]
                    if k not in parts_of(short(cls)):
                        vals[k] = (before[k][0], v)
            for s2 in (r.set(s, vals) if flip is not None else [s1]):
                t = TRun(p)
                t.sts = [s2.copy()]
                t.cls = dict(r.cls)
                t.obj('c', 'verif_entry::Clones')
                for s3 in t.sts:
                    s3 = s3.copy()
                    s3.store[t.loc('c') + (('f', 'verif_entry::Clones', src),)] = ('ref', t.loc('o'))
                    for s4, _ in t.raw(s3, fn, ['c']):
                        o2 = s4.store.get(t.loc('c') + (('f', 'verif_entry::Clones', dst),))
                        if not (isinstance(o2, tuple) and o2[:1] == ('ref',)):
                            bad.append('the copy is %s' % txt(o2)); continue
                        c2 = s4.store.get(o2[1] + ('dyn',)) or s4.store.get(o2[1] + (exact_dyn(),))
                        s5 = s4.copy()
                        for nm, loc in (('p1', t.loc('o')), ('p2', o2[1])):
                            t.map_(s5, nm, {})
                            rs = t.I.run(t.fns['o_get'], None, [('ref', loc), ('ref', t.loc(nm))], s5)
                            if len(rs) != 1:
                                raise AnalysisError('parameters of %s: %d results' % (cls, len(rs)))
                            s5 = rs[0][0]
                        a, b = tree(t.I, s5, t.loc('p1')), tree(t.I, s5, t.loc('p2'))
                        ctx.count('parameters copied', size(a))
                        bad += diff(a, b)
                        if o2[1] == t.loc('o'):
                            bad.append('the copy is the object itself')
                        if c2 is not None and dyn_name(c2) != cls:
                            bad.append('the copy is of type %s' % dyn_name(c2))
                        got += 1
                n += 1
                bad += ['%s (%s)' % x for x in t.c.bad + t.c.rejected]
                bad += ['an exception is thrown (%s)' % (e[1][3].where(e[1][2]) if e[1][3] else '') for e in t.excs]
    if not got and not bad:
        bad.append('no copy is made')
    ctx.count('histories', n)
    ctx.ob('copies', '%s: %s' % (short(cls), {None: 'as made', False: 'values', True: 'other values'}[flip]), not bad, where, '; '.join(dict.fromkeys(bad))[:700])


def size(t):
    return sum(1 + (size(x[1]) if x[1] else 0) for x in t.values())


def exact_dyn():
    from absint import DYN
    return DYN


def dyn_name(v):
    return v[1] if isinstance(v, tuple) else v


def initial_state(ctx):
    """the size of a specified initial state, its elements and what it reports"""
    p = ctx.p
    cls = 'ctm::math::SpecifiedOdeInitState<%s>' % VD
    where = p.classes[cls].get('loc') or cls
    for n0 in range(4):
        for n1 in range(4):
            for how in ('size only', 'size and elements'):
                r = TRunV(p)
                r.obj('o', cls)
                x = [Poly.atom(('V', 'x%d' % i)) for i in range(4)]
                y = [Poly.atom(('V', 'y%d' % i)) for i in range(4)]
                tm = Poly.atom(('V', 'time'))
                v0 = {'size': ('int', Poly.const(n0)), 'time': ('double', tm)}
                v0.update({'x%d' % i: ('double', x[i]) for i in range(4)})
                v1 = {'size': ('int', Poly.const(n1))}
                if how != 'size only':
                    v1.update({'x%d' % i: ('double', y[i]) for i in range(1, 4)})
                want = [x[i] if i < n0 else ZERO for i in range(n1)]
                if how != 'size only':
                    want = want[:1] + y[1:n1]
                bad, ok = [], 0
                for s in r.sts:
                    for s1 in r.set(s, v0):
                        for s2 in r.set(s1, v1):
                            for s3, d in r.get(s2):
                                ok += 1
                                w = {'size': Poly.const(n1), 'time': tm}
                                w.update({'x%d' % i: v for i, v in enumerate(want)})
                                if set(d) != set(w):
                                    bad.append('the parameters are %s' % ', '.join(sorted(d)))
                                bad += ['%s is reported as %s instead of %s' % (k, d[k][1], w[k]) for k in w if k in d and d[k][1] != w[k]]
                                r.cls['v'] = None
                                r.I.drop(s3, r.loc('v'))
                                for s4 in new_object(r.I, s3.copy(), r.loc('v'), 'ctm::math::VectorTemplate<%s>' % VD):
                                    for s5, _ in r.raw(s4, 's_state', ['o', 'v']):
                                        for s6, vv in r.vval(s5, 'v'):
                                            if vv != want:
                                                bad.append('the state is %s instead of %s' % (vv, want))
                                        for s6, tv in r.raw(s5, 's_time', ['o']):
                                            if tv != tm:
                                                bad.append('the time is %s' % tv)
                if not ok:
                    bad.append('an exception is thrown')
                bad += ['%s (%s)' % z for z in r.c.bad]
                ctx.count('histories', 1)
                ctx.ob('state size', 'from %d to %d: %s' % (n0, n1, how), not bad, where, '; '.join(dict.fromkeys(bad))[:500])


class TRunV(PRun):
    """values as values, texts of constants as texts"""
    def __init__(self, p):
        super().__init__(p)
        self.I.c = self.c = VClient(p)


class VClient(PClient):
    def call(self, I, st, fr, node, fid, ol, args):
        if q_of(node) == 'std::to_string':
            x = num(I, st, fr, node, args, 0).cval()
            if x is not None and x == int(x):
                return [(st, ('str', str(int(x))))]
        return super().call(I, st, fr, node, fid, ol, args)


def one(ctx, item):
    item[0](ctx, *item[1:])


def clone_items(p):
    out = []
    for fn, (a, b, iface) in IFACES.items():
        for c in registered(p, 'ctm::math::%s<%s>' % (iface, VD)):
            for flip in (None, False, True):
                out.append((clone, (fn, c, flip)))
    return out
