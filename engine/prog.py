"""Runs the extractor over /repo's current sources and loads the resolved program."""
import glob, hashlib, json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EXTRACT = os.path.join(VERIF, 'build', 'extract')
RES = '/usr/lib/llvm-18/lib/clang/18'


class Broken(Exception):
    """The analysis cannot give an answer (missing anchor, unparsable source)."""


def sources(repo):
    t = repo + '/app/tenncor'
    r = repo + '/app/rocnnet'
    out = []
    out += sorted(glob.glob(t + '/src/**/*.cpp', recursive=True))
    out += sorted(glob.glob(t + '/declare/*.cpp'))
    out += sorted(glob.glob(r + '/src/**/*.cpp', recursive=True))
    out += sorted(glob.glob(r + '/ipython/*.cpp'))
    return out


def _flags(repo, gen, defs):
    return ['-std=c++14', '-w', '-Wno-narrowing', '-Wno-c++11-narrowing', '-resource-dir', RES, '-ferror-limit=0',
            '-I' + repo + '/app/tenncor/include', '-I' + repo + '/app/rocnnet/include',
            '-I' + repo + '/app/rocnnet/ipython', '-I' + gen] + ['-D' + d for d in defs]


def _gen_protos(repo, tmp):
    gen = tmp + '/gen'
    os.makedirs(gen + '/proto', exist_ok=True)
    ps = sorted(glob.glob(repo + '/app/tenncor/proto/**/*.proto', recursive=True))
    for p in ps:
        cmd = ['protoc', '-I' + os.path.dirname(p), '--cpp_out=' + gen + '/proto', p]
        if '/grpc/' in p:
            cmd[1:1] = ['--grpc_out=' + gen + '/proto', '--plugin=protoc-gen-grpc=/usr/bin/grpc_cpp_plugin']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken('protoc failed on %s: %s' % (p, r.stderr[:400]))
    return gen


def _hash(repo):
    h = hashlib.sha256()
    fs = []
    for base in ('app/tenncor', 'app/rocnnet'):
        for d, ds, ff in os.walk(os.path.join(repo, base)):
            ds[:] = [x for x in ds if x not in ('bin', '.git', 'tests')]
            for f in ff:
                if re.search(r'\.(cpp|hpp|ipp|h|proto)$', f):
                    fs.append(os.path.join(d, f))
    for f in sorted(fs):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    for f in [EXTRACT, os.path.join(VERIF, 'engine', 'driver.cpp'), os.path.join(VERIF, 'engine', 'driver_csv.cpp')]:
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def load(config='base', repo=None):
    """config: 'base' (as built), 'strassen', 'csv' (the recording build), 'thread' (the streaming build's threads)."""
    repo = repo or REPO
    if not os.path.exists(EXTRACT):
        subprocess.run(['bash', os.path.join(VERIF, 'setup.sh')], check=True, stdout=subprocess.DEVNULL)
    cache = None
    if os.environ.get('VERIF_CACHE'):
        cache = os.path.join(os.environ['VERIF_CACHE'], _hash(repo) + '-' + config + '.json')
        if os.path.exists(cache):
            with open(cache) as fh:
                return Program(json.load(fh))
    tmp = tempfile.mkdtemp(prefix='vx')
    try:
        gen = _gen_protos(repo, tmp)
        defs = {'base': [], 'strassen': ['ENABLE_STRASSEN'], 'edge': ['EDGE_RCD', 'RPC_RCD'],
                'csv': ['EDGE_RCD', 'CSV_RCD'], 'thread': ['EDGE_RCD', 'RPC_RCD']}[config]
        srcs = sources(repo)
        extra = []
        if config == 'strassen':
            srcs = [s for s in srcs if '/declare/' in s]
        elif config == 'csv':
            # the recording build: the edge functions and the recorder (the recorder's headers lack an include of their own)
            srcs = [s for s in srcs if '/react/' in s or os.path.basename(s) in ('adjlist_record.cpp', 'csv_record.cpp', 'igraph_record.cpp')]
            srcs.append(os.path.join(VERIF, 'engine', 'driver_csv.cpp'))
            extra = ['-include', 'condition_variable', '-include', 'functional']
        elif config == 'thread':
            # what the threads of the streaming build share (its headers lack an include of their own)
            srcs = [s for s in srcs if '/thread/' in s or os.path.basename(s) in ('gui_notifier.cpp', 'grpc_vis_record.cpp')]
            extra = ['-include', 'condition_variable', '-include', 'functional']
        else:
            srcs.append(os.path.join(VERIF, 'engine', 'driver.cpp'))
        jobs = []

        def run(i_s):
            i, s = i_s
            out = '%s/%d.json' % (tmp, i)
            r = subprocess.run([EXTRACT, out, os.path.realpath(repo) + '/app', s, '--'] + _flags(repo, gen, defs) + extra,
                               capture_output=True, text=True)
            return s, out, r
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(run, enumerate(srcs)))
        units = []
        for s, out, r in res:
            if not os.path.exists(out):
                raise Broken('extractor failed on %s: %s' % (s, r.stderr[:800]))
            with open(out) as fh:
                u = json.load(fh)
            u['source'] = s
            u['stderr'] = r.stderr[:4000] if u['errors'] else ''
            if u['errors'] and not os.path.basename(s).startswith('driver'):
                raise Broken('%s does not parse: %s' % (s, u['stderr'][:800]))
            units.append(u)
        data = {'units': units, 'repo': os.path.realpath(repo), 'config': config}
        if cache:
            os.makedirs(os.path.dirname(cache), exist_ok=True)
            with open(cache + '.%d' % os.getpid(), 'w') as fh:
                json.dump(data, fh)
            os.rename(cache + '.%d' % os.getpid(), cache)
        return Program(data)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Program:
    def __init__(self, data):
        self.repo = data['repo']
        self.config = data['config']
        self.fns = {}
        self.classes = {}
        self.globals = {}
        self.units = []
        self.driver_errors = ''
        nframe = 0
        for ui, u in enumerate(data['units']):
            files = [f[len(self.repo) + 1:] if f.startswith(self.repo + '/') else f for f in u['files']]
            self.units.append(u['source'])
            if u['errors']:
                self.driver_errors = u['stderr']
            for f in u['functions']:
                if f['usr'] in self.fns and not self.fns[f['usr']].get('defaulted'):
                    continue
                f['files'] = files
                f['unit'] = ui
                self.fns[f['usr']] = f
            for c in u['classes']:
                if c['usr'] in self.classes:
                    continue
                c['files'] = files
                self.classes[c['usr']] = c
            for g in u['globals']:
                if g['usr'] in self.globals:
                    continue
                g['files'] = files
                g['unit'] = ui
                self.globals[g['usr']] = g
        self.byq = {}
        for f in self.fns.values():
            self.byq.setdefault(f['q'], []).append(f)
        self.clsq = {}
        for c in self.classes.values():
            self.clsq.setdefault(c['q'], []).append(c)
        self.subs = {}
        for c in self.classes.values():
            for b in c['bases']:
                if 'usr' in b:
                    self.subs.setdefault(b['usr'], []).append(c['usr'])
        self.globq = {g['q']: g for g in self.globals.values()}
        # override map: (class usr, root method usr) -> most derived method usr
        self.meth = {}
        for c in self.classes.values():
            for m in c['methods']:
                self.meth[m['usr']] = (c, m)

    # ---- classes
    def cls(self, q, ta=None):
        """class by qualified name; for templates the double instantiation."""
        cs = self.clsq.get(q, [])
        if not cs:
            raise Broken('class %s not found' % q)
        if len(cs) == 1:
            return cs[0]
        for c in cs:
            if c.get('ta') == (ta or 'double'):
                return c
        return cs[0]

    def bases(self, u):
        """all (transitive) base usrs, nearest first"""
        out = []
        todo = [u]
        while todo:
            x = todo.pop(0)
            c = self.classes.get(x)
            if not c:
                continue
            for b in c['bases']:
                bu = b.get('usr')
                if bu and bu not in out:
                    out.append(bu)
                    todo.append(bu)
        return out

    def derived(self, u):
        out = []
        todo = [u]
        while todo:
            x = todo.pop(0)
            for s in self.subs.get(x, []):
                if s not in out:
                    out.append(s)
                    todo.append(s)
        return out

    def overrides(self, mu, target):
        """does method mu override (transitively) target, or equal it"""
        if mu == target:
            return True
        if mu not in self.meth:
            return False
        return any(self.overrides(o, target) for o in self.meth[mu][1]['ov'])

    def resolve(self, clsu, target):
        """final overrider of `target` in class clsu (None when ambiguous/not found)"""
        todo = [clsu]
        seen = set()
        while todo:
            nxt = []
            hits = []
            for x in todo:
                if x in seen:
                    continue
                seen.add(x)
                c = self.classes.get(x)
                if not c:
                    continue
                hit = None
                for m in c['methods']:
                    if self.overrides(m['usr'], target):
                        hit = m
                        break
                if hit:
                    hits.append(hit['usr'])
                else:
                    nxt += [b['usr'] for b in c['bases'] if 'usr' in b]
            if hits:
                return hits[0]
            todo = nxt
        return None

    def targets(self, static_cls, target):
        """possible final overriders under class-hierarchy analysis"""
        out = []
        for u in [static_cls] + self.derived(static_cls):
            c = self.classes.get(u)
            if not c:
                continue
            if c.get('abstract'):
                continue
            r = self.resolve(u, target)
            if r and r not in out:
                out.append(r)
        return out

    def method(self, c, name, pred=None):
        """method records (functions) named `name` declared in class c"""
        out = []
        for m in c['methods']:
            if m['n'] == name and m['usr'] in self.fns:
                f = self.fns[m['usr']]
                if pred is None or pred(f):
                    out.append(f)
        return out

    def all_fields(self, u):
        out = []
        for x in [u] + self.bases(u):
            c = self.classes.get(x)
            if c:
                out += [(c, f) for f in c['fields']]
        return out

    def where(self, f, L=None):
        L = L or f['L']
        return '%s:%d' % (f['files'][L[0]], L[1])


if __name__ == '__main__':
    p = load(sys.argv[1] if len(sys.argv) > 1 else 'base')
    print(len(p.fns), 'functions', len(p.classes), 'classes', p.driver_errors)
