"""Base client and scenario helper for abstract runs of the public API."""
import absint, models
from absint import (Client, Interp, State, Budget, kind, strip, mk, BASE, EL, DYN, SIZE, hashable, at, nullform, neg)
from terms import Poly, ZERO, ONE, Iv, is_v
from program import Program, AnalysisError, walk

OBS = ('f', 'cxx', '#callbacks')
N = 'ctm::math::'
VD = 'ctm::math::VectorData<double>'
VT = 'ctm::math::VectorTemplate<%s>' % VD


def init_enums(prog):
    es = set()
    for f in prog.fns.values():
        for n in walk([f.body, f.inits]):
            if n.get('lk') == 'e':
                es.add(strip(n.get('t')))
    absint.ENUMS |= es


def q_of(n):
    return n.get('q') or ''


class Base(Client):
    """Common treatment of the inert parts of the library: observers are exact lists of callbacks, timing is inert,
    factories and per-type storage are opaque sources of fresh objects."""
    #: names of opaque events recorded into st.auto via self.event
    INERT = ('OpaqueTickCounter::', 'ctm::sys::TimingStats::', 'ctm::math::LUFactorizerTimingStats::')
    run_callbacks = True

    def __init__(self):
        self.sites = {}

    # -- hooks for subclasses
    def notify(self, I, st, fr, node, ol, args):
        """an observer list is invoked; may update st.auto in place"""

    def vcall(self, I, st, fr, node, fid, ol, args):
        """any call (before inlining); None or result list"""
        return None

    def component(self, I, st, fr, node, iface, name):
        """value of Factory<iface>::newInstance(name)"""
        return ('sym', ('new', iface, name, I.fresh(st, ('newinst', I.uid(node)))))

    def call(self, I, st, fr, node, fid, ol, args):
        q = q_of(node)
        r = self.vcall(I, st, fr, node, fid, ol, args)
        if r is not None:
            return r
        if q.startswith('ctm::cxx::'):
            r = self.cxx(I, st, fr, node, q, ol, args)
            if r is not None:
                return r
        for p in self.INERT:
            if q.startswith(p):
                t = node.get('t')
                if kind(t) == 'void':
                    return [(st, None)]
                if node.get('rr'):
                    return [(st, ('ref', ol))] if ol is not None else None
                if kind(t) == 'num':
                    return [(st, Poly.atom(('time', I.fresh(st, ('time', I.uid(node))))))]
                if ol is not None and node.get('op') in ('=', '+='):
                    return [(st, ('ref', ol))]
                return None
        if q == 'ctm::Factory::newInstance' and args:
            a = args[0]
            v = I.read(st, a[1], 'std::string', fr, node) if isinstance(a, tuple) and a and a[0] == 'ref' else a
            ifc = (node.get('cls') or node.get('t') or '')
            name = v[1] if isinstance(v, tuple) and v and v[0] == 'str' else None
            nv = self.component(I, st, fr, node, ifc, name)
            if nv is not None:
                if nv[0] == 'sym':
                    st.facts[('nn', nv)] = True
                return [(st, nv)]
        if q == 'ctm::PerTypeStorage::value':
            return [(st, ('ref', (('G', 'PerTypeStorage<%s>' % node.get('t')),)))]
        if q.startswith(('std::list::', 'std::__cxx11::list::')):
            n = node.get('n')
            if n in ('push_back', 'push_front', 'erase', 'clear', 'pop_back'):
                return [(st, None)]
            if n in ('begin', 'end', 'cbegin', 'cend'):
                return [(st, ('sym', ('lit', n, ol)))]
        return None

    def cxx(self, I, st, fr, node, q, ol, args):
        n = q.rsplit('::', 1)[1]
        if q in ('ctm::cxx::Observers::operator()', 'ctm::cxx::TerminatingObservers::operator()'):
            self.notify(I, st, fr, node, ol, args)
            cbs = st.store.get(ol + (OBS,))
            bools = q.startswith('ctm::cxx::Term')
            outs = [(st, False)]
            if cbs and cbs[0] == 'cbs' and self.run_callbacks:
                for i, cb in cbs[1]:
                    nxt = []
                    for s, acc in outs:
                        for s2, v in I.call_value(s, fr, node, cb, list(args)):
                            nxt.append((s2, acc))
                    outs = nxt
            if bools:
                return [(s, ('t', ('observers', ol, I.fresh(s, ('obs', I.uid(node)))))) for s, v in outs]
            return [(s, None) for s, v in outs]
        if q == 'ctm::cxx::IdentifiedElements::add':
            a = args[0]
            v = I.read(st, a[1], 'std::function<>', fr, node) if isinstance(a, tuple) and a and a[0] == 'ref' else a
            cbs = st.store.get(ol + (OBS,))
            lst = cbs[1] if cbs and cbs[0] == 'cbs' else ()
            i = Poly.const(1 + max([int(x.cval()) for x, _ in lst] or [0]) + 0)
            st.store[ol + (OBS,)] = ('cbs', lst + ((i, hashable(v)),))
            self.registered(I, st, fr, node, ol, i)
            return [(st, i)]
        if q == 'ctm::cxx::IdentifiedElements::remove':
            cbs = st.store.get(ol + (OBS,))
            lst = cbs[1] if cbs and cbs[0] == 'cbs' else ()
            i = args[0]
            if isinstance(i, tuple) and i and i[0] == 'ref':
                i = I.read(st, i[1], 'int', fr, node)
            st.store[ol + (OBS,)] = ('cbs', tuple((a, b) for a, b in lst if a != i))
            self.unregistered(I, st, fr, node, ol, i)
            return [(st, None)]
        if q == 'ctm::cxx::IdentifiedElements::empty':
            cbs = st.store.get(ol + (OBS,))
            if cbs and cbs[0] == 'cbs' and cbs[1]:
                return [(st, False)]
            return [(st, ('t', ('noobs', ol)))]
        return None

    def registered(self, I, st, fr, node, ol, i):
        pass

    def unregistered(self, I, st, fr, node, ol, i):
        pass

    def opaque(self, I, st, fr, node, fid, ol, args):
        q = q_of(node)
        if q.startswith('std::map::') and q.endswith('::rbegin'):
            return [(st, ('sym', ('rb', ol)))]
        return None


def new_object(I, st, loc, cls, nargs=0, args=(), dyn=None):
    """[(state)] after default construction of class cls at loc"""
    st.store[loc + BASE] = ('fresh',)
    st.store[loc + DYN] = dyn or cls
    c = I.p.classes.get(cls)
    if not c:
        raise AnalysisError('class %s vanished' % cls)
    cands = [I.p.fns[m['id']] for m in c['methods'] if m['ctor'] and m['id'] in I.p.fns
             and not I.p.fns[m['id']].copy and not I.p.fns[m['id']].move and len(I.p.fns[m['id']].params) == len(args)]
    if not cands:
        # default arguments
        for m in c['methods']:
            f = I.p.fns.get(m['id']) if m['ctor'] else None
            if f is not None and not (f.copy or f.move) and len(f.params) > len(args) and all('dv' in x for x in f.params[len(args):]):
                vals = list(args)
                for x in f.params[len(args):]:
                    vals += [v for _, v in I.ev(st, None, x['dv'])][:1]
                return [s for s, _ in I.run(f, loc, vals, st)]
    if not cands:
        if not args:
            return [st]
        raise AnalysisError('no constructor of %s' % cls)
    return [s for s, _ in I.run(cands[0], loc, list(args), st)]


def method(p, cls, name, nparams=None, const=None):
    """the method executed when name is called on a complete object of class cls (virtual or not)"""
    for b in p.bases(cls):
        c = p.classes.get(b)
        for m in c['methods'] if c else []:
            if m['name'] == name and m['id'] in p.fns:
                f = p.fns[m['id']]
                if nparams is not None and len(f.params) != nparams:
                    continue
                if const is not None and f.const != const:
                    continue
                return f
    raise AnalysisError('method %s::%s vanished' % (cls, name))


def call(I, st, loc, cls, name, args=(), nparams=None, const=None):
    f = method(I.p, cls, name, nparams if nparams is not None else len(args), const)
    return I.run(f, loc, list(args), st)


def the_class(p, tmpl, contains=None):
    cs = p.cls_of(tmpl, contains)
    cs = [c for c in cs]
    if len(cs) != 1:
        raise AnalysisError('class %s: %d instantiations in the analysed units' % (tmpl, len(cs)))
    return cs[0]['name']


def put_vec(st, loc, atom, size):
    st.store[loc] = ('vec', Poly.atom(('V', atom)), size if isinstance(size, Poly) else Poly.atom(('size', size)))
