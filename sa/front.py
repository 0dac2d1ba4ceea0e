"""Front end: runs the AST extractor over the library and merges the result
into one resolved program (functions by mangled name, records by full name)."""
import hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
EXCLUDE = {'src/Optimization/ipopt_interface.cpp',
           'src/Optimization/ipopt_solver.cpp',
           'src/Collocation/GaussLobattoLagrangeFunctionals.cpp'}
TYPE_KEYS = ('t', 'ot', 'at', 'et', 'rt', 'ct')


class FrontError(Exception):
    pass


def units():
    out = []
    for base, _, files in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(files):
            p = os.path.relpath(os.path.join(base, f), REPO)
            if f.endswith('.cpp') and p not in EXCLUDE:
                out.append(p)
    return sorted(out)


def build_tool():
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')],
                       capture_output=True, text=True)
    if r.returncode or not os.path.exists(os.path.join(BUILD, 'gsx')):
        raise FrontError('cannot build the extractor:\n' + r.stderr[-2000:])


def _extract(src, out):
    cmd = [os.path.join(BUILD, 'gsx'), out, src, REPO + ',' + os.path.join(VERIF, 'tool'),
           '--', '-std=c++17', '-I' + os.path.join(REPO, 'include'),
           '-I/usr/include/eigen3', '-resource-dir',
           '/usr/lib/llvm-18/lib/clang/18', '-w']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if not os.path.exists(out):
        raise FrontError('extractor failed on %s\n%s' % (src, r.stderr[-2000:]))
    d = json.load(open(out))
    if d.get('errors'):
        raise FrontError('%s does not parse:\n%s' % (src, r.stderr[-2000:]))
    return d


class Program:
    def __init__(self):
        self.fns = {}        # mangled -> function with a body
        self.decls = {}      # qualified name -> list of functions
        self.records = {}    # full name -> record
        self.vars = {}       # qualified name -> variable
        self.types = []
        self.units = []
        self._tmap = {}

    def type_id(self, ty):
        key = json.dumps(ty, sort_keys=True)
        if key not in self._tmap:
            self._tmap[key] = len(self.types)
            self.types.append(ty)
        return self._tmap[key]

    def add(self, unit, d):
        self.units.append(unit)
        m = [self.type_id(t) for t in d['types']]

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            for k, v in n.items():
                if k in TYPE_KEYS and isinstance(v, int):
                    n[k] = m[v]
                elif k == 'pt' and isinstance(v, list):
                    n[k] = [m[x] for x in v]
                else:
                    walk(v)
        for part in ('functions', 'records', 'vars'):
            walk(d[part])
        for f in d['functions']:
            f['unit'] = unit
            has = f.get('body') is not None or f.get('inits')
            old = self.fns.get(f['m'])
            if has and (old is None or old.get('implicit')):
                # internal-linkage functions of different units cannot clash
                # here: their mangled names contain the _ZL prefix and a unit
                # suffix is added
                if old is None:
                    self.decls.setdefault(f['q'], []).append(f)
                self.fns[f['m']] = f
        for r in d['records']:
            if r['full'] not in self.records:
                self.records[r['full']] = r
        for v in d['vars']:
            key = v['q'] if not v.get('staticlocal') else v['q'] + '@%s:%d' % (v['file'], v['l'])
            if key not in self.vars or v.get('def'):
                self.vars[key] = v

    # ---- queries
    def ty(self, i):
        return self.types[i] if i is not None else {'s': '?', 'c': '?', 'cls': 'other'}

    def bases(self, full):
        out, todo = [], [full]
        while todo:
            r = self.records.get(todo.pop())
            if r is None:
                continue
            for b in r['bases']:
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def derives(self, full, base):
        return full == base or base in self.bases(full)

    def all_fields(self, full):
        r = self.records.get(full)
        if r is None:
            return []
        out = []
        for b in r['bases']:
            out += self.all_fields(b)
        return out + [(full, f) for f in r['fields']]

    def find(self, q, pt=None, **kw):
        """functions with that qualified name; pt filters on printed parameter
        types, kw on attributes such as rq, const"""
        res = []
        for f in self.decls.get(q, []):
            f = self.fns[f['m']]
            if pt is not None and [self.ty(x)['s'] for x in f['pt']] != pt:
                continue
            if any(f.get(k) != v for k, v in kw.items()):
                continue
            res.append(f)
        return res


def unit_hash(head, src):
    h = hashlib.sha256(head)
    h.update(src.encode())
    h.update(open(src, 'rb').read())
    return h.hexdigest()[:24]


def header_hash():
    """everything but the translation units themselves"""
    h = hashlib.sha256(REPO.encode())
    for top in ('src', 'include'):
        for base, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.cpp'):
                    p = os.path.join(base, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    for p in ('tool/extract.cpp', 'tool/inst.cpp', 'sa/front.py'):
        h.update(open(os.path.join(VERIF, p), 'rb').read())
    return h.digest()


def load():
    os.makedirs(BUILD, exist_ok=True)
    build_tool()
    us = units()
    if not us:
        raise FrontError('no sources')
    jobs = [(u, os.path.join(REPO, u)) for u in us]
    jobs.append(('tool/inst.cpp', os.path.join(VERIF, 'tool', 'inst.cpp')))
    head = header_hash()
    keep = set()

    def one(j):
        u, p = j
        out = os.path.join(BUILD, 'unit-%s.json' % unit_hash(head, p))
        keep.add(os.path.basename(out))
        if os.path.exists(out + '.ok'):
            return u, json.load(open(out))
        tmp = '%s.%d' % (out, os.getpid())
        d = _extract(p, tmp)
        os.replace(tmp, out)
        open(out + '.ok', 'w').close()
        return u, d
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    prog = Program()
    for u, d in res:
        prog.add(u, d)
    # drop the results for other trees
    for f in os.listdir(BUILD):
        if f.startswith('prog-') or (f.startswith('unit-') and f.replace('.ok', '') not in keep and
                                     time.time() - os.path.getmtime(os.path.join(BUILD, f)) > 3600):
            p = os.path.join(BUILD, f)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)
    return prog


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.fns), 'functions', len(p.records), 'records', len(p.vars), 'vars', len(p.types), 'types', round(time.time() - t, 1), 's')
    if len(sys.argv) > 1:
        for q in sorted(p.decls):
            if sys.argv[1] in q:
                for f in p.find(q):
                    print(q, [p.ty(x)['s'] for x in f['pt']], f.get('rq'), f.get('const'), f['file'].split('/')[-1], f['l'])
