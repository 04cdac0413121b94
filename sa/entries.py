"""Element-wise abstract runs of the entry points of tu/entries.inc."""
import exact
from absint import Interp, State, BASE, SIZE, kind, strip
from harness import Base, new_object, VD, VT
from terms import Poly, ZERO, ONE
from program import AnalysisError

MT = 'ctm::math::sparse::SparseMatrixTemplate<ctm::math::sparse::SparseMatrixData<double>>'
FT = 'ctm::math::sparse::SparseMatrixTemplate<ctm::math::sparse::SparseMatrixFastData<double>>'


class EntryClient(Base):
    max_states = 1 << 16
    unroll = 200
    exact_loops = True      # decided loops are followed to their end

    def __init__(self):
        super().__init__()
        self.bad = []
        self.asserts = []

    def on_oob(self, I, st, fr, e, what):
        self.bad.append((what, fr.where(e) if fr else ''))

    def on_endless(self, I, st, fr, node):
        self.bad.append(('a loop does not end (sizes are at most 6 here)', fr.where(node) if fr else ''))

    def on_assert(self, I, st, fr, e):
        self.asserts.append(fr.where(e) if fr else '')

    def on_uninit(self, I, st, fr, loc, node):
        self.bad.append(('a value is read that was never set', fr.where(node) if fr else ''))


class Run:
    """one abstract execution context: named objects and calls of entry points on them"""

    def __init__(self, p, client=None):
        exact.on()
        self.p = p
        self.I = Interp(p, client or EntryClient())
        self.c = self.I.c
        self.fns = entry_fns(p)
        self.sts = [State()]
        self.cls = {}
        self.excs = []          # exceptions that left an entry point

    def obj(self, name, cls):
        self.cls[name] = cls
        out = []
        for s in self.sts:
            out += new_object(self.I, s, (('R', name),), cls)
        self.sts = out

    def loc(self, name):
        return (('R', name),)

    def raw(self, st, fn, args):
        f = self.fns.get(fn)
        if f is None:
            raise AnalysisError('entry point %s vanished' % fn)
        vals = []
        for a in args:
            if isinstance(a, str):
                vals.append(('ref', self.loc(a)))
            elif isinstance(a, int):
                vals.append(Poly.const(a))
            else:
                vals.append(a)
        res = self.I.run(f, None, vals, st)
        self.excs += [(fn, e) for e in self.I.exc]
        return res

    def do(self, fn, *args):
        """call on all states"""
        out = []
        for s in self.sts:
            out += [s2 for s2, _ in self.raw(s, fn, args)]
        self.sts = self.I.dedupe(out)
        return self

    def ask(self, st, fn, *args):
        """[(state, value)] of a call, on one state"""
        return self.raw(st.copy(), fn, args)

    # ---- vectors
    def vec(self, name, vals):
        if name not in self.cls:
            self.obj(name, VT)
        self.do('v_make', name, len(vals))
        for i, v in enumerate(vals):
            self.do('v_put', name, i, v)

    def vval(self, st, name):
        """[(state, list of values)]"""
        out = []
        for s, n in self.ask(st, 'v_size', name):
            c = n.cval() if isinstance(n, Poly) else None
            if c is None or c > 64:
                return [(s, None)]
            cur = [(s, [])]
            for i in range(int(c)):
                cur = [(s2, l + [v]) for s1, l in cur for s2, v in self.ask(s1, 'v_get', name, i)]
            out += cur
        return out

    # ---- matrices
    def mat(self, name, rows, cols, els):
        self.obj(name, MT)
        self.do('m_make', name, rows, cols)
        for (r, c), v in els.items():
            self.do('m_put', name, r, c, v)

    def fmat(self, name, rows, cols, els):
        self.mat(name + '#m', rows, cols, els)
        self.obj(name, FT)
        self.do('f_assign', name, name + '#m')

    def mval(self, st, name, pre='mm'):
        """[(state, (rows, cols, {index: value}))]"""
        out = []
        for s, r in self.ask(st, pre + '_rows', name):
            for s2, c in self.ask(s, pre + '_cols', name):
                r_, c_ = r.cval(), c.cval()
                if r_ is None or c_ is None or r_ > 16 or c_ > 16:
                    out.append((s2, None)); continue
                cur = [(s2, {})]
                for i in range(int(r_)):
                    for j in range(int(c_)):
                        nxt = []
                        for s3, d in cur:
                            for s4, h in self.ask(s3, pre + '_has', name, i, j):
                                for s5, hb in self.I.branch(s4, h):
                                    if not hb:
                                        nxt.append((s5, d)); continue
                                    for s6, v in self.ask(s5, pre + '_getI', name, i, j):
                                        nxt.append((s6, dict(d, **{}) | {(i, j): v}))
                        cur = nxt
                for s3, d in cur:
                    for s4, n in self.ask(s3, pre + '_count', name):
                        if n != Poly.const(len(d)):
                            d = d | {(-1, -1): ZERO}        # elements outside the matrix
                        out.append((s4, (int(r_), int(c_), d)))
        return out


def entry_fns(p):
    c = getattr(p, '_entries', None)
    if c is None:
        c = p._entries = {}
        for f in p.fns.values():
            if f.tmpl.startswith('verif_entry::'):
                c[f.name] = f
    return c
