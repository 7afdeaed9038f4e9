"""Program database: parses /repo's current sources with oacdump (clang) and merges the typed ASTs."""
import glob, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OAC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'oacdump')
TOOLSRC = os.path.join(VERIF, 'tool', 'oacdump.cpp')
STUBS = os.path.join(VERIF, 'stubs')
DRIVERS = os.path.join(VERIF, 'drivers')
LIB = 'src/lib/sup/oac-tree'


class AnalysisError(Exception):
    """The analysis cannot give an answer (source does not parse, anchor vanished...)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def readb(p):
    with open(p, 'rb') as f:
        return f.read()


def build_tool():
    stamp = TOOL + '.sha'
    want = sha(readb(TOOLSRC))
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = TOOL + '.%d' % os.getpid()
    ll = '/usr/lib/llvm-18'
    r = subprocess.run(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions', '-I' + ll + '/include',
                        TOOLSRC, '-o', tmp, ll + '/lib/libclang-cpp.so.18.1', ll + '/lib/libLLVM-18.so'],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('cannot build oacdump: ' + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    with open(stamp, 'w') as f:
        f.write(want)


# what is taken from the stubs is the layout of the tree of XML data only
ROOTS = (REPO + '/src', DRIVERS, STUBS + '/sup/xml/tree_data.h')


def sources():
    out = []
    for d in ('src/lib', 'src/app'):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files if f.endswith('.cpp')]
    out += glob.glob(os.path.join(DRIVERS, '*.cpp'))
    return sorted(out)


def _stub_hash():
    h = []
    for root, _, files in os.walk(STUBS):
        for f in sorted(files):
            if f.endswith('.h'):
                h.append(sha(readb(os.path.join(root, f))))
    return sha(*sorted(h))


def dump_one(src, basehash, cache):
    """Return the dump (dict) of one translation unit; a cached dump is used only when the text of the
    unit and of every repository header it read is byte-identical to what was parsed."""
    key = sha(basehash, src, readb(src))
    cpath = os.path.join(cache, key + '.json')
    if os.path.exists(cpath):
        try:
            j = json.loads(readb(cpath))
            if all(os.path.exists(p) and sha(readb(p)) == h for p, h in j['deps'].items()):
                j['cached'] = True
                return j
        except Exception:
            pass
    tmp = cpath + '.%d.tmp' % os.getpid()
    roots = ','.join(ROOTS)
    r = subprocess.run([TOOL, tmp, roots, src, '--', '-std=c++17', '-w', '-I' + REPO + '/src/lib', '-I' + STUBS,
                        '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'], capture_output=True, text=True)
    if r.returncode or not os.path.exists(tmp):
        raise AnalysisError('%s does not parse: %s' % (src, r.stderr[-1500:]))
    j = json.loads(readb(tmp))
    deps = {}
    for p in set(j['files']) | {src}:
        p = os.path.normpath(p)
        if os.path.exists(p):
            deps[p] = sha(readb(p))
    j['deps'] = deps
    with open(tmp, 'w') as f:
        json.dump(j, f)
    os.replace(tmp, cpath)
    return j


class Program:
    def __init__(self, srcs=None):
        build_tool()
        cache = os.path.join(BUILD, 'cache')
        os.makedirs(cache, exist_ok=True)
        base = sha(readb(TOOLSRC), _stub_hash(), *ROOTS)
        srcs = srcs or sources()
        self.driver_errors = {}

        def dump(s):
            try:
                return dump_one(s, base, cache)
            except AnalysisError as e:
                if not s.startswith(DRIVERS):
                    raise
                # a client program that no longer compiles against the public API: its checks cannot run
                self.driver_errors[os.path.basename(s)] = str(e)
                return None
        with ThreadPoolExecutor(8) as ex:
            dumps = [d for d in ex.map(dump, srcs) if d is not None]
        self.units = len(dumps)
        self.fresh = sum(1 for d in dumps if not d.get('cached'))
        self.funcs, self.records, self.globals, self.enums = {}, {}, {}, {}
        for d in dumps:
            for f in d['functions']:
                o = self.funcs.get(f['f'])
                if o is None or ('body' not in o and 'body' in f):
                    f['main'] = d['main']
                    self.funcs[f['f']] = f
            for r in d['records']:
                self.records.setdefault(r['n'], r)
            for g in d['globals']:
                o = self.globals.get(g['gk'])
                if o is None or ('init' not in o and 'init' in g):
                    self.globals[g['gk']] = g
            for e in d['enums']:
                self.enums.setdefault(e['n'], e)
        self.enumval = {}
        for e in self.enums.values():
            for c in e['c']:
                self.enumval[c['n']] = (e['n'], int(c['v']))
        self.overriders = {}   # key -> set of keys that directly override it
        self.mrec = {}         # method key -> record name
        for r in self.records.values():
            for m in r['methods']:
                self.mrec[m['f']] = r['n']
                for o in m['over']:
                    self.overriders.setdefault(o, set()).add(m['f'])
        self.byname = {}
        for f in self.funcs.values():
            self.byname.setdefault(f['n'], []).append(f)
        self.methods_of = {}
        for r in self.records.values():
            self.methods_of[r['n']] = r['methods']

    # ---- queries
    def bases(self, cls, public=False):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.records.get(c)
            if r:
                todo += r['pubbases' if public else 'bases']
        return out

    def derived(self, cls):
        return sorted(n for n in self.records if cls in self.bases(n))

    def is_a(self, cls, base):
        return base in self.bases(cls)

    def all_overriders(self, key):
        out, todo = set(), [key]
        while todo:
            k = todo.pop()
            for o in self.overriders.get(k, ()):
                if o not in out:
                    out.add(o)
                    todo.append(o)
        return out

    def resolve(self, key, cls):
        """final overrider of virtual method `key` for dynamic class cls"""
        fam = {key} | self.all_overriders(key)
        # also go up: methods that key overrides share the family
        for c in self.bases(cls):
            for m in self.methods_of.get(c, ()):
                if m['f'] in fam:
                    return m
        return None

    def fields(self, cls):
        out = []
        for c in reversed(self.bases(cls)):
            r = self.records.get(c)
            if r:
                out += r['fields']
        return out

    def field(self, cls, name):
        for f in self.fields(cls):
            if f['n'] == name:
                return f
        return None

    def fn(self, name, nparams=None, pred=None):
        """unique function definition by qualified name (suffix match)"""
        c = [f for n, fs in self.byname.items() if n == name or n.endswith('::' + name) for f in fs
             if 'body' in f or f.get('inits') is not None]
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        return c

    def one(self, name, nparams=None, pred=None):
        c = self.fn(name, nparams, pred)
        if not c:
            raise AnalysisError('anchor function %s not found' % name)
        return c[0]


def short(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + '/') else path


def walk(n):
    """all dict nodes below n (pre-order)"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed(list(x.values())))
        elif isinstance(x, list):
            st.extend(reversed(x))


def split_targs(t):
    """template arguments of a printed type"""
    i = t.find('<')
    if i < 0:
        return []
    depth, cur, out = 0, '', []
    for ch in t[i + 1:]:
        if ch == '<' or ch == '(':
            depth += 1
        if ch == '>' or ch == ')':
            if depth == 0:
                break
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


if __name__ == '__main__':
    p = Program()
    print('units %d (fresh %d) functions %d records %d globals %d enums %d' % (
        p.units, p.fresh, len(p.funcs), len(p.records), len(p.globals), len(p.enums)))
