"""Extraction and loading of the type-resolved program of /repo."""
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EXTRACT = os.path.join(BUILD, 'extract')


class AnalysisError(Exception):
    """The analysis itself is broken (a vanished anchor, an unparsable unit...): neither pass nor violation."""


def build_extractor():
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(EXTRACT) and os.path.getmtime(EXTRACT) >= os.path.getmtime(src):
        return
    tmp = EXTRACT + '.tmp%d' % os.getpid()
    cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so',
           '-Wl,-rpath,/usr/lib/llvm-18/lib']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError('cannot build the extractor:\n' + r.stdout[-4000:])
    os.rename(tmp, EXTRACT)


def repo_files():
    out = []
    for base in ('include', 'src', 'examples'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.cpp', '.cc', '.cxx', '.inc', '.txt', '.ipp')):
                    out.append(os.path.join(d, f))
    return out


def headers():
    out = []
    root = os.path.join(REPO, 'include')
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.h', '.hpp')):
                out.append(os.path.relpath(os.path.join(d, f), root))
    return out


def sources():
    return [f for f in repo_files() if f.endswith(('.cpp', '.cc', '.cxx'))]


FLAGS = ['-std=gnu++11', '-fPIC', '-I' + os.path.join(REPO, 'include'), '-w', '-ferror-limit=5',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def extract_all(debug=True):
    """Extract every unit; returns list of (unit, [records]). Cached by content hash of the sources."""
    build_extractor()
    h = hashlib.sha256()
    uses = os.path.join(VERIF, 'tu', 'uses.inc')
    for f in repo_files() + [uses, os.path.join(VERIF, 'tu', 'entries.inc'), os.path.abspath(__file__), os.path.join(VERIF, 'extractor', 'extract.cpp')]:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    h.update(b'debug' if debug else b'release')
    key = h.hexdigest()[:24]
    cdir = os.path.join(BUILD, 'cache')
    cfile = os.path.join(cdir, key + '.jsonl')
    if not os.path.exists(cfile):
        os.makedirs(cdir, exist_ok=True)
        tmpd = tempfile.mkdtemp(prefix='sa_extract_', dir=BUILD)
        try:
            allcpp = os.path.join(tmpd, 'all.cpp')
            with open(allcpp, 'w') as fh:
                for x in headers():
                    fh.write('#include "%s"\n' % x)
                fh.write('#include "%s"\n' % uses)
            units = [('all', allcpp)] + [(os.path.relpath(s, REPO), s) for s in sources()]
            roots = ','.join([REPO + '/include', REPO + '/src', REPO + '/examples', os.path.join(VERIF, 'tu', 'entries.inc')])

            def one(u):
                name, path = u
                out = os.path.join(tmpd, hashlib.md5(name.encode()).hexdigest() + '.jsonl')
                cmd = [EXTRACT, out, roots, path, '--'] + FLAGS + (['-D_DEBUG'] if debug else [])
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise AnalysisError('clang cannot parse unit %s:\n%s' % (name, r.stdout[-3000:]))
                return name, out
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, units))
            tmpf = os.path.join(tmpd, 'merged.jsonl')
            with open(tmpf, 'w') as fo:
                for i, (name, out) in enumerate(res):
                    fo.write(json.dumps({'rec': 'unit', 'i': i, 'name': name}) + '\n')
                    with open(out) as fi:
                        shutil.copyfileobj(fi, fo)
            os.rename(tmpf, cfile)
            # keep the cache small
            olds = sorted(glob.glob(os.path.join(cdir, '*.jsonl')), key=os.path.getmtime)
            for o in olds[:-6]:
                try:
                    os.unlink(o)
                except OSError:
                    pass
        finally:
            shutil.rmtree(tmpd, ignore_errors=True)
    return cfile


class Fn:
    __slots__ = ('id', 'name', 'tmpl', 'loc', 'params', 'body', 'inits', 'cls', 'ctmpl', 'virtual', 'const', 'static',
                 'overrides', 'ctor', 'dtor', 'copy', 'move', 'implicit', 'ret', 'retref', 'rec', 'unit', 'access')

    def __init__(self, r, unit):
        self.id = r['id']; self.name = r['name']; self.tmpl = r['tmpl']; self.loc = r['loc']
        self.params = r['params']; self.body = r['body']; self.inits = r.get('inits', [])
        self.cls = r.get('cls'); self.ctmpl = r.get('ctmpl'); self.virtual = r.get('virtual', False)
        self.const = r.get('const', False); self.static = r.get('static', False)
        self.overrides = r.get('overrides', []); self.ctor = r.get('ctor', False); self.dtor = r.get('dtor', False)
        self.copy = r.get('copy', False); self.move = r.get('move', False)
        self.implicit = r.get('implicit', False); self.ret = r['ret']; self.retref = r.get('retref', False)
        self.rec = r; self.unit = unit; self.access = r.get('access', 0)

    @property
    def file(self):
        return self.loc.rsplit(':', 1)[0]

    def rloc(self, line=None):
        f, l = self.loc.rsplit(':', 1)
        if f.startswith(REPO + '/'):
            f = os.path.normpath(f)[len(REPO) + 1:]
        return '%s:%s' % (f, line or l)


class Program:
    def __init__(self, debug=True):
        self.fns = {}
        self.classes = {}
        self.vars = {}
        self.macros = []
        self.units = []
        unit = None
        with open(extract_all(debug)) as fh:
            for line in fh:
                r = json.loads(line)
                k = r['rec']
                if k == 'unit':
                    unit = r['name']; self.units.append(unit)
                elif k == 'fn':
                    if r['id'] not in self.fns:
                        self.fns[r['id']] = Fn(r, unit)
                elif k == 'class':
                    if r['name'] not in self.classes:
                        r['unit'] = unit
                        self.classes[r['name']] = r
                elif k == 'var':
                    key = r['q'] + '@' + r['loc'] + '@' + (r.get('infn') or '')
                    if key not in self.vars:
                        r['unit'] = unit
                        self.vars[key] = r
                elif k == 'macro':
                    self.macros.append(r)
        self._index()

    def _index(self):
        self.by_tmpl = {}
        for f in self.fns.values():
            self.by_tmpl.setdefault(f.tmpl, []).append(f)
        self.cls_by_tmpl = {}
        for c in self.classes.values():
            self.cls_by_tmpl.setdefault(c['tmpl'], []).append(c)
        self.methods = {}       # class -> name -> [method rec]
        self.meth_by_id = {}
        for c in self.classes.values():
            m = {}
            for x in c['methods']:
                m.setdefault(x['name'], []).append(x)
                self.meth_by_id.setdefault(x['id'], (c['name'], x))
            self.methods[c['name']] = m
        self.derived = {}
        for c in self.classes.values():
            for b in c['bases']:
                self.derived.setdefault(b['name'], []).append(c['name'])
        self.overriders = {}    # method id -> ids directly overriding it
        for c in self.classes.values():
            for x in c['methods']:
                for o in x['overrides']:
                    self.overriders.setdefault(o, []).append(x['id'])
        self._fo = {}

    # --- class hierarchy
    def bases(self, cls, acc=None):
        """All (transitive) base class names, including cls."""
        if acc is None:
            acc = []
        if cls in acc:
            return acc
        acc.append(cls)
        c = self.classes.get(cls)
        if c:
            for b in c['bases']:
                self.bases(b['name'], acc)
        return acc

    def subclasses(self, cls, acc=None):
        if acc is None:
            acc = []
        if cls in acc:
            return acc
        acc.append(cls)
        for d in self.derived.get(cls, []):
            self.subclasses(d, acc)
        return acc

    def is_a(self, cls, base):
        return base in self.bases(cls)

    def base_tmpl(self, cls, tmpl):
        for b in self.bases(cls):
            c = self.classes.get(b)
            if c and c['tmpl'] == tmpl:
                return b
        return None

    def all_overriders(self, mid, acc=None):
        if acc is None:
            acc = set()
        for o in self.overriders.get(mid, []):
            if o not in acc:
                acc.add(o)
                self.all_overriders(o, acc)
        return acc

    def final_overrider(self, cls, mid):
        """The method id executed when method mid is called on an object of dynamic class cls."""
        k = (cls, mid)
        if k in self._fo:
            return self._fo[k]
        res = None
        fam = {mid} | self.all_overriders(mid)
        # breadth-first from the most derived class
        order = [cls]
        i = 0
        while i < len(order):
            c = self.classes.get(order[i])
            i += 1
            if not c:
                continue
            hit = [x['id'] for x in c['methods'] if x['id'] in fam]
            if hit:
                res = hit[0]
                break
            for b in c['bases']:
                if b['name'] not in order:
                    order.append(b['name'])
        self._fo[k] = res
        return res

    def fn(self, fid):
        return self.fns.get(fid)

    def find(self, tmpl, **kw):
        """Functions by template-qualified name, filtered."""
        out = []
        for f in self.by_tmpl.get(tmpl, []):
            if all(getattr(f, k) == v for k, v in kw.items()):
                out.append(f)
        return out

    def cls_of(self, tmpl, targ_contains=None):
        cs = self.cls_by_tmpl.get(tmpl, [])
        if targ_contains:
            cs = [c for c in cs if any(targ_contains in t for t in c.get('targs', []))]
        return cs

    def fields(self, cls):
        """All fields incl. inherited: list of (class, field rec)."""
        out = []
        for b in self.bases(cls):
            c = self.classes.get(b)
            if c:
                for f in c['fields']:
                    out.append((b, f))
        return out


def walk(n):
    """Pre-order over all dict nodes of an AST."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed(list(x.values())))
        elif isinstance(x, list):
            st.extend(reversed(x))


if __name__ == '__main__':
    import time
    t = time.time()
    p = Program()
    print(len(p.fns), 'functions', len(p.classes), 'classes', len(p.vars), 'vars', len(p.units), 'units', '%.1fs' % (time.time() - t))
    kinds = {}
    for f in p.fns.values():
        for n in walk([f.body, f.inits]):
            k = n.get('k')
            if k == 'unk':
                k = 'unk:' + str(n.get('cls'))
            if k == 'unkstmt':
                k = 'unkstmt:' + str(n.get('cls'))
            kinds[k] = kinds.get(k, 0) + 1
    print(kinds)
