"""Path-sensitive abstract interpreter over the typed ASTs (property simulation / ESP style).

Abstract values are value numbers: constants, enumerators, opaque atoms and hash-consed terms over them.
A path state keeps, for every opaque value number, a finite fact (set of possible constants, ordering
relations to other value numbers, emptiness of containers ...).  Branch conditions refine facts; states that
become equal (up to renaming of atoms) are merged; loops run to a fixpoint, loop-carried numbers are widened.
The log of observable effects of the iterations of a loop is abstracted to ('star', {iteration logs}), so the
outcome of a function is a finite set of (result, effect expression, facts) triples.  Nothing is executed and
no solver is involved.
"""
import itertools, sys, time
from prog import AnalysisError, split_targs, short, walk

sys.setrecursionlimit(20000)

NULL = ('c', None)
TRUE = ('c', True)
FALSE = ('c', False)


def C(x):
    return ('c', x)


def is_c(v):
    return v[0] == 'c'


def T(op, *args):
    return ('t', op) + args


def sh(v):
    """hash of a value that does not depend on the identity of its unknowns"""
    if isinstance(v, tuple):
        if v:
            if v[0] == 'c' or v[0] == 'e':
                return hash(v)
            if len(v) == 3 and v[0] == 'a' and isinstance(v[1], int):
                return 1
            if len(v) >= 3 and v[0] == 'o' and isinstance(v[1], int):
                return 2
        return hash(tuple([sh(x) for x in v]))
    if isinstance(v, frozenset):
        return hash(frozenset([sh(x) for x in v]))
    if isinstance(v, Exc):
        return hash((v.cls, sh(v.val)))
    return hash(v)


class St:
    __slots__ = ('store', 'facts', 'rels', 'log', 'locks', 'temps', 'taint', 'trail', 'exc', 'foralls', 'relock', 'clog', 'shape')

    def __init__(self):
        self.store = {}
        self.facts = {}     # term -> ('in'|'out', frozenset of const values)
        self.rels = {}      # (a,b) -> frozenset of '<','=','>','u'
        self.log = ()
        self.locks = ()
        self.temps = ()
        self.taint = ()
        self.trail = ()
        self.exc = ()
        self.foralls = frozenset()
        self.relock = False
        self.clog = None    # canonical form of a prefix of the log
        self.shape = None   # hash of a prefix of the log, without the identity of its unknowns

    def copy(self):
        n = St.__new__(St)
        n.store = dict(self.store)
        n.facts = dict(self.facts)
        n.rels = dict(self.rels)
        n.log = self.log
        n.locks = self.locks
        n.temps = self.temps
        n.taint = self.taint
        n.trail = self.trail
        n.exc = self.exc
        n.foralls = self.foralls
        n.relock = self.relock
        n.clog = self.clog
        n.shape = self.shape
        return n


class Fr:
    __slots__ = ('fid', 'fn', 'this', 'depth', 'name', 'file')

    def __init__(self, fid, fn, this, depth, name, file):
        self.fid, self.fn, self.this, self.depth, self.name, self.file = fid, fn, this, depth, name, file


class Exc:
    """exceptional result"""
    __slots__ = ('val', 'cls')

    def __init__(self, val, cls):
        self.val, self.cls = val, cls


class Outcome:
    def __init__(self, st, kind, val, cls=None):
        self.st, self.kind, self.val, self.cls = st, kind, val, cls   # kind: ret | exc | ub

    @property
    def log(self):
        return self.st.log

    @property
    def taint(self):
        return self.st.taint


def strip_t(t):
    t = t.strip()
    while True:
        o = t
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'enum '):
            if t.startswith(p):
                t = t[len(p):]
        for s in (' const', '&', ' '):
            if t.endswith(s):
                t = t[:-len(s)]
        if t.endswith('*const'):
            t = t[:-5]
        if t == o:
            return t


SEQ = ('std::vector', 'std::deque', 'std::list', 'std::array', 'std::initializer_list', 'std::queue', 'std::stack',
       'std::forward_list', 'std::__cxx11::list')
MAP = ('std::map', 'std::unordered_map', 'std::multimap')
SET = ('std::set', 'std::unordered_set', 'std::multiset')
SMART = ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr')


def head_t(t):
    t = strip_t(t)
    i = t.find('<')
    return t[:i] if i >= 0 else t


def classify(t):
    s = strip_t(t)
    if s.endswith('*'):
        return 'ptr'
    if s.endswith(']'):
        return 'seq'
    h = head_t(s)
    if '(*)' in s and not s.endswith('>') or s.endswith(')') and '(' in s and not h.startswith('std::') and 'lambda at' not in s:
        return 'fptr'
    if h in SEQ:
        return 'seq'
    if h in MAP:
        return 'map'
    if h in SET:
        return 'set'
    if h in SMART:
        return 'smart'
    if h == 'std::basic_string' or h == 'std::basic_string_view':
        return 'str'
    if h == 'std::function':
        return 'func'
    if h in ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex'):
        return 'mutex'
    if h == 'std::atomic':
        return 'atomic'
    if h == 'std::optional':
        return 'opt'
    if h in ('std::pair', 'std::tuple'):
        return 'tup'
    if h in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock'):
        return 'lock'
    if h in ('std::future', 'std::promise', 'std::thread', 'std::shared_future'):
        return 'async'
    if s == 'bool':
        return 'bool'
    if s in ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short',
             'char', 'signed char', 'unsigned char', 'unsigned'):
        return 'int'
    if s in ('double', 'float', 'long double'):
        return 'float'
    if s.endswith(']'):
        return 'seq'
    if s == 'void':
        return 'void'
    return 'cls'


class Cfg:
    """Per-check policy."""
    opaque_classes = ()      # calls on symbolic receivers of these classes become events
    max_depth = 14
    max_recursion = 2
    max_states = 4000
    max_loop = 400
    max_steps = 400000
    max_heads = 160          # states at the head of a loop whose test is decided
    max_time = 60
    sequential = False       # no other thread is active (client programs)
    unroll = False           # the environment bounds every loop: execute each iteration, also where a loop test forks
    run_async = False        # std::async runs its callable at once (client programs)

    def keep(self, ev):
        return True

    def call_hook(self, I, st, fr, node, name, recv, args):
        """return None to use the default, or a list of (st, value|Exc)"""
        return None

    def may_throw(self, name):
        return False


class TooComplex(Exception):
    pass


class Interp:
    def __init__(self, prog, cfg=None):
        self.p = prog
        self.cfg = cfg or Cfg()
        self.n = 0
        self.ttype = {}
        self.lams = {}
        self.accesses = set()   # (cls, field, mode, locks, file, line, fn)
        self.analysed = set()   # functions analysed
        self.nstates = 0
        self.globcache = {}
        self.deadline = time.monotonic() + self.cfg.max_time

    # ------------------------------------------------------------------ helpers
    def fresh(self, tag, typ=''):
        self.n += 1
        a = ('a', self.n, tag)
        if typ:
            self.ttype[a] = typ
        return a

    def newobj(self, cls):
        self.n += 1
        return ('o', self.n, cls)

    def typed(self, term, typ):
        self.ttype.setdefault(term, typ)
        return term

    def ev(self, st, *ev):
        if self.cfg.keep(ev):
            st.log = st.log + (ev,)

    def taint(self, st, why):
        if why not in st.taint:
            st.taint = st.taint + (why,)

    def note(self, st, fr, line, text):
        if len(st.trail) < 60:
            st.trail = st.trail + ((fr.name, line, text),)

    # ------------------------------------------------------------------ facts
    def enum_domain(self, term):
        t = strip_t(self.ttype.get(term, ''))
        e = self.p.enums.get(t)
        if e:
            return [('e', c['n'], int(c['v'])) for c in e['c']]
        return None

    def known(self, st, term):
        """constant the term is known to equal, or None"""
        if term[0] in 'ce':
            return term
        f = st.facts.get(term)
        if f and f[0] == 'in' and len(f[1]) == 1:
            return next(iter(f[1]))
        return None

    def norm(self, st, v):
        k = self.known(st, v)
        return k if k is not None else v

    def assume_eq(self, st, term, const, truth):
        """refine; returns False if infeasible"""
        f = st.facts.get(term)
        if truth:
            if f:
                if f[0] == 'in' and const not in f[1]:
                    return False
                if f[0] == 'out' and const in f[1]:
                    return False
            if not self.rel_ok(st, term, const, '='):
                return False
            st.facts[term] = ('in', frozenset([const]))
            return True
        if f is None:
            dom = self.enum_domain(term)
            if self.ttype.get(term) == 'bool':
                dom = [TRUE, FALSE]
                f = ('in', frozenset(dom))
            else:
                f = ('out', frozenset())
        if f[0] == 'in':
            r = f[1] - {const}
            if not r:
                return False
            st.facts[term] = ('in', r)
        else:
            st.facts[term] = ('out', f[1] | {const})
            if self.numval(const) is not None and not self.is_float(term) and any(x == term for x, _ in st.rels) \
                    and not self.rel_ok(st, term, const, '<') and not self.rel_ok(st, term, const, '>'):
                return False
        return True

    def possible_rels(self, st, a, b):
        """ordering relations still possible between value numbers a and b"""
        ka, kb = self.known(st, a), self.known(st, b)
        if ka is not None:
            a = ka
        if kb is not None:
            b = kb
        va, vb = self.numval(a), self.numval(b)
        if va is not None and vb is not None:
            if va != va or vb != vb:
                return {'u'}
            return {'<' if va < vb else '>' if va > vb else '='}
        if a == b:
            return {'='} | ({'u'} if self.is_float(a) else set())
        base = {'<', '=', '>'}
        if self.is_float(a) or self.is_float(b):
            base = base | {'u'}
        if vb is not None:
            return {r for r in base if self.rel_ok(st, a, b, r)}
        if va is not None:
            inv = {'<': '>', '>': '<', '=': '=', 'u': 'u'}
            return {inv[r] for r in base if self.rel_ok(st, b, a, r)}
        key, flip = self.relkey(a, b)
        s = st.rels.get(key)
        if s is None:
            s = base
        else:
            s = s & frozenset(base) if 'u' not in base else s
        if flip:
            inv = {'<': '>', '>': '<', '=': '=', 'u': 'u'}
            s = {inv[r] for r in s}
        # transitivity through numeric constants
        out = set()
        for r in s:
            if r == 'u' or self.trans_ok(st, a, b, r):
                out.add(r)
        return out

    def trans_ok(self, st, a, b, r):
        ca = self.cells(st, a)
        cb = self.cells(st, b)
        if ca is None or cb is None:
            return True
        lo_a, hi_a = ca
        lo_b, hi_b = cb
        if r == '<':
            return lo_a < hi_b or lo_a == hi_b == float('inf')
        if r == '>':
            return lo_b < hi_a
        return not (hi_a < lo_b or hi_b < lo_a)

    def cells(self, st, t):
        v = self.numval(t)
        if v is not None:
            return (v, v)
        lo, hi = float('-inf'), float('inf')
        if self.is_unsigned(t):
            lo = 0
        for (x, c), s in st.rels.items():
            if x == t:
                n = self.numval(c)
                if n is None:
                    continue
                if '<' not in s and 'u' not in s:
                    lo = max(lo, n)
                if '>' not in s and 'u' not in s:
                    hi = min(hi, n)
        return (lo, hi)

    def is_unsigned(self, t):
        return strip_t(self.ttype.get(t, '')).startswith('unsigned')

    def relkey(self, a, b):
        if self.numval(b) is not None:
            return (a, b), False
        if self.numval(a) is not None:
            return (b, a), True
        if repr(a) <= repr(b):
            return (a, b), False
        return (b, a), True

    def is_float(self, t):
        return strip_t(self.ttype.get(t, '')) in ('double', 'float', 'long double')

    def numval(self, v):
        if v[0] == 'e':
            return v[2]
        if v[0] == 'c' and isinstance(v[1], (int, float)):
            return v[1]
        return None

    def rel_ok(self, st, term, const, r):
        """is relation `term r const` consistent with what is known about term?"""
        n = self.numval(const)
        if n is None:
            return True
        isint = not self.is_float(term)
        f = st.facts.get(term)
        if f and f[0] == 'in':
            ok = False
            for c in f[1]:
                m = self.numval(c)
                if m is None:
                    ok = True
                elif m != m:
                    ok |= r == 'u'
                else:
                    ok |= r == ('<' if m < n else '>' if m > n else '=')
            if not ok:
                return False
        cons = {n: {r}}
        for (x, c), s in st.rels.items():
            if x == term:
                m = self.numval(c)
                if m is not None:
                    if m in cons:
                        cons[m] = cons[m] & set(s)
                    else:
                        cons[m] = set(s)
        if f and f[0] == 'out':
            for c in f[1]:
                m = self.numval(c)
                if m is not None:
                    cons[m] = cons.get(m, {'<', '=', '>', 'u'}) - {'='}
        if isint and self.is_unsigned(term):
            cons[0] = cons.get(0, {'<', '=', '>'}) - {'<'}
        pts = sorted(cons)
        if not isint and all('u' in s for s in cons.values()):
            return True
        # cells: (-inf,p0), p0, (p0,p1), p1, ...
        cellsl = []
        for i, p in enumerate(pts):
            prev = pts[i - 1] if i else None
            if prev is None or not isint or p - prev > 1:
                cellsl.append(('gap', prev, p))
            cellsl.append(('pt', p, p))
        cellsl.append(('gap', pts[-1], None))
        for kind, lo, hi in cellsl:
            good = True
            for p in pts:
                if kind == 'pt':
                    rr = '<' if lo < p else '>' if lo > p else '='
                else:
                    rr = '<' if (hi is not None and hi <= p) else '>'
                if rr not in cons[p]:
                    good = False
                    break
            if good:
                return True
        return False

    def assume_rel(self, st, a, b, rels):
        ka, kb = self.known(st, a), self.known(st, b)
        if ka is not None:
            a = ka
        if kb is not None:
            b = kb
        pos = self.possible_rels(st, a, b)
        new = pos & set(rels)
        if not new:
            return False
        if self.numval(a) is not None and self.numval(b) is not None:
            return True
        key, flip = self.relkey(a, b)
        inv = {'<': '>', '>': '<', '=': '=', 'u': 'u'}
        s = frozenset(inv[r] for r in new) if flip else frozenset(new)
        if key in st.rels:
            s = s & st.rels[key] or s
        st.rels[key] = s
        if s == frozenset('=') and self.numval(key[1]) is not None:
            st.facts[key[0]] = ('in', frozenset([key[1]]))
        return True

    # eq term: canonical boolean terms are T('eq',a,b), T('lt',a,b) handled by decide
    def decide(self, st, v, line=None, fr=None):
        """split state on truth of v -> list of (st, bool)"""
        v = self.norm(st, v)
        if v[0] == 'c':
            return [(st, bool(v[1]))]
        if v[0] == 'e':
            return [(st, bool(v[2]))]
        if v[0] in ('o', 'lam', 'fn', 'ref', 'bind', 'seq', 'map', 'set', 'tup', 'some', 'loc'):
            return [(st, True)]
        if v[0] == 't':
            op = v[1]
            if op == 'not':
                return [(s, not b) for s, b in self.decide(st, v[2])]
            if op == 'eq':
                return self.decide_eq(st, v[2], v[3])
            if op == 'cmp':   # ('t','cmp',relset,a,b)
                return self.decide_rel(st, v[2], v[3], v[4])
            if op == 'and':
                out = []
                for s, b in self.decide(st, v[2]):
                    out += self.decide(s, v[3]) if b else [(s, False)]
                return out
            if op == 'or':
                out = []
                for s, b in self.decide(st, v[2]):
                    out += [(s, True)] if b else self.decide(s, v[3])
                return out
            if op == 'empty':
                return self.decide_empty(st, v[2])
            if op == 'len':
                return [(s, not b) for s, b in self.decide_empty(st, v[2])]
            if op == 'bool' or op == 'int':
                return self.decide(st, v[2])
        # opaque truthiness: compare with zero/null of its type
        k = classify(self.ttype.get(v, 'bool'))
        zero = {'ptr': NULL, 'smart': NULL, 'func': NULL, 'fptr': NULL, 'opt': NULL, 'int': C(0), 'float': C(0)}.get(k, None)
        if zero is None and k == 'cls' and self.enum_domain(v) is not None:
            zero = next((e for e in self.enum_domain(v) if e[2] == 0), C(0))
        if zero is None and k == 'cls' and v[0] == 'a' or zero is None and k == 'cls':
            zero = NULL
        if zero is not None:
            return [(s, not b) for s, b in self.decide_eq(st, v, zero)]
        f = st.facts.get(v)
        out = []
        for b in (True, False):
            s2 = st.copy()
            if self.assume_eq(s2, v, C(b), True):
                out.append((s2, b))
        return out

    def decide_eq(self, st, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if a == b:
            if self.is_float(a):
                return self.decide_rel(st, frozenset('='), a, b)
            return [(st, True)]
        if a[0] in 'ce' and b[0] in 'ce':
            na, nb = self.numval(a), self.numval(b)
            if na is not None and nb is not None:
                return [(st, na == nb)]
            return [(st, False)]
        if b[0] not in 'ce' and a[0] in 'ce':
            a, b = b, a
        objs = ('o', 'lam', 'fn', 'bind', 'ref')
        if a[0] in objs and (b[0] in objs or b == NULL):
            return [(st, False)]
        if a[0] in objs and b[0] in 'c':
            return [(st, False)]
        if a[0] == 'o' and b[0] in ('a', 't') or b[0] == 'o' and a[0] in ('a', 't'):
            o, x = (a, b) if a[0] == 'o' else (b, a)
            if len(o) > 3 and o[3] == 'fresh':
                return [(st, False)]
        if a[0] == 't' and a[1] == 'strcmp' and b == C(0):
            return self.decide_rel(st, frozenset('='), a, b)
        if a[0] == 't' and b[0] == 'c':
            op = a[1]
            if op in ('eq', 'cmp', 'not', 'and', 'or', 'empty', 'bool') and isinstance(b[1], (bool, int)):
                want = bool(b[1])
                return [(s, r == want) for s, r in self.decide(st, a)]
            if op == 'len' and b[1] == 0:
                return self.decide_empty(st, a[2])
            if op == 'int' :
                return self.decide_eq(st, a[2], self.to_enum(a[2], b))
        if a[0] == 't' and b[0] == 't' and a[1] == 'int' and b[1] == 'int':
            return self.decide_eq(st, a[2], b[2])
        # strings: empty
        out = []
        if b[0] in 'ce':
            isnum = self.numval(b) is not None and not isinstance(b[1], bool) and b[0] == 'c' \
                and classify(self.ttype.get(a, '')) in ('int', 'float')
            if isnum:
                return self.decide_rel(st, frozenset('='), a, b)
            dom = self.enum_domain(a)
            if a[0] == 't' and a[1] == 'cat':
                r = self.cat_eq(a, b)
                if r is not None:
                    return [(st, r)]
            for truth in (True, False):
                s2 = st.copy()
                if self.assume_eq(s2, a, b, truth):
                    out.append((s2, truth))
            return out
        if classify(self.ttype.get(a, '')) in ('int', 'float') and classify(self.ttype.get(b, '')) in ('int', 'float'):
            return self.decide_rel(st, frozenset('='), a, b)
        # enum atoms on both sides: decide by enumerating one side when the other has a domain
        key = T('eq', *sorted((a, b), key=repr))
        f = st.facts.get(key)
        if f and f[0] == 'in' and len(f[1]) == 1:
            return [(st, bool(next(iter(f[1]))[1]))]
        fa, fb = st.facts.get(a), st.facts.get(b)
        disjoint = False
        if fa and fb:
            if fa[0] == 'in' and fb[0] == 'in' and not (fa[1] & fb[1]):
                disjoint = True
            if fa[0] == 'in' and fb[0] == 'out' and fa[1] <= fb[1]:
                disjoint = True
            if fa[0] == 'out' and fb[0] == 'in' and fb[1] <= fa[1]:
                disjoint = True
        for truth in ((False,) if disjoint else (True, False)):
            s2 = st.copy()
            s2.facts[key] = ('in', frozenset([C(truth)]))
            if truth:
                # share constant facts
                for x, y in ((a, b), (b, a)):
                    f = s2.facts.get(x)
                    if f and f[0] == 'in' and y not in s2.facts:
                        s2.facts[y] = f
            out.append((s2, truth))
        return out

    def cat_eq(self, a, b):
        """concatenation with a non-empty constant piece never equals ''"""
        if b == C(''):
            for x in a[2:]:
                if x[0] == 'c' and x[1]:
                    return False
        return None

    def to_enum(self, term, c):
        dom = self.enum_domain(term)
        n = self.numval(c)
        if dom:
            for e in dom:
                if e[2] == n:
                    return e
        return c

    def decide_rel(self, st, rels, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        for x, y, r in ((a, b, frozenset(rels)), (b, a, frozenset({'<': '>', '>': '<'}.get(z, z) for z in rels))):
            if x[0] == 't' and x[1] == 'strcmp' and y == C(0):
                l, m = self.norm(st, x[2]), self.norm(st, x[3])
                if l[0] == 'c' and m[0] == 'c' and isinstance(l[1], str) and isinstance(m[1], str):
                    return [(st, ('<' if l[1] < m[1] else '>' if l[1] > m[1] else '=') in r)]
                out = []
                for s2, eq in self.decide_eq(st, l, m):
                    if eq:
                        out.append((s2, '=' in r))
                    elif '<' in r and '>' in r:
                        out.append((s2, True))
                    elif '<' not in r and '>' not in r:
                        out.append((s2, False))
                    else:
                        q = self.typed(T('strless', l, m), 'bool')
                        for s3, lt in self.decide(s2, q):
                            out.append((s3, ('<' if lt else '>') in r))
                return out
        # unwrap enum casts by enumerating
        for x in (a, b):
            y = x[2] if x[0] == 't' and x[1] == 'int' else x
            if self.numval(y) is None and self.enum_domain(y) is not None and self.known(st, y) is None:
                other = b if x is a else a
                oy = other[2] if other[0] == 't' and other[1] == 'int' else other
                if self.numval(oy) is not None:
                    out = []
                    for s in self.split_enum(st, y):
                        out += self.decide_rel(s, rels, a, b)
                    return out
        if a[0] == 't' and a[1] == 'int':
            a = self.norm(st, a[2])
        if b[0] == 't' and b[1] == 'int':
            b = self.norm(st, b[2])
        if a[0] == 't' and a[1] == 'len' and self.numval(b) is not None:
            r = self.len_rel(st, rels, a[2], self.numval(b), a, b)
            if r is not None:
                return r
        if b[0] == 't' and b[1] == 'len' and self.numval(a) is not None:
            inv = {'<': '>', '>': '<', '=': '=', 'u': 'u'}
            r = self.len_rel(st, frozenset(inv[x] for x in rels), b[2], self.numval(a), b, a)
            if r is not None:
                return r
        # index < len(opaque middle): iteration test
        idx = self.index_test(st, rels, a, b)
        if idx is not None:
            return idx
        pos = self.possible_rels(st, a, b)
        yes, no = pos & set(rels), pos - set(rels)
        out = []
        if yes and no:
            s2 = st.copy()
            if self.assume_rel(s2, a, b, yes):
                out.append((s2, True))
            s3 = st.copy()
            if self.assume_rel(s3, a, b, no):
                out.append((s3, False))
            return out
        return [(st, bool(yes))]

    def split_enum(self, st, y):
        out = []
        dom = self.enum_domain(y)
        for e in dom:
            s = st.copy()
            if self.assume_eq(s, y, e, True):
                out.append(s)
        return out

    def index_test(self, st, rels, a, b):
        """i < size(mid): the value numbers of an index and the length of an opaque sequence"""
        def mid_of(x):
            return x[2] if x[0] == 't' and x[1] == 'len' and x[2][0] != 'seq' else None
        flip = False
        if mid_of(a) is not None and mid_of(b) is None:
            a, b = b, a
            flip = True
        m = mid_of(b)
        if m is None or mid_of(a) is not None:
            return None
        if flip:
            inv = {'<': '>', '>': '<', '=': '='}
            rels = frozenset(inv[r] for r in rels if r in inv)
        if a[0] == 't' and a[1] == 'int':
            a = a[2]
        if not (a == C(0) or a[0] == 'a' or (a[0] == 't' and a[1] == '+')):
            return None
        want = {frozenset('<'): True, frozenset('>='): False, frozenset('=>'): False, frozenset('<>'): True,
                frozenset('='): False}.get(frozenset(rels))
        if want is None:
            return None
        return [(s, b == want) for s, b in self.more(st, m, a)]

    def more(self, st, mid, pos):
        """does the opaque sequence `mid` have an element at cursor pos?  logs the iteration step"""
        key = T('more', mid, pos)
        k = self.known(st, key)
        if k is not None:
            return [(st, bool(k[1]))]
        if pos == C(0):
            e = st.facts.get(T('empty', mid))
            if e and len(e[1]) == 1:
                val = not next(iter(e[1]))[1]
                st.facts[key] = ('in', frozenset([C(val)]))
                self.ev(st, 'iter', mid, self.elem(mid, pos)) if val else self.ev(st, 'done', mid)
                return [(st, val)]
        y, n = st.copy(), st
        y.facts[key] = ('in', frozenset([TRUE]))
        y.facts[T('empty', mid)] = ('in', frozenset([FALSE]))
        self.ev(y, 'iter', mid, self.elem(mid, pos))
        n.facts[key] = ('in', frozenset([FALSE]))
        if pos == C(0):
            n.facts[T('empty', mid)] = ('in', frozenset([TRUE]))
        self.ev(n, 'done', mid)
        return [(y, True), (n, False)]

    def elem(self, mid, pos):
        t = T('elem', mid, pos)
        mt = self.ttype.get(mid)
        if mt and t not in self.ttype:
            ta = split_targs(strip_t(mt))
            k = classify(mt)
            if k == 'map' and len(ta) >= 2:
                self.ttype[t] = 'std::pair<%s, %s>' % (ta[0], ta[1])
            elif ta:
                self.ttype[t] = ta[0]
            elif strip_t(mt).endswith(']'):
                self.ttype[t] = strip_t(mt)[:strip_t(mt).rfind('[')]
            elif k == 'str':
                self.ttype[t] = 'char'
        return t

    def decide_empty(self, st, s):
        """emptiness of a sequence/map value or opaque middle"""
        if s[0] == 'seq':
            if s[1] or s[3]:
                return [(st, False)]
            if s[2] is None:
                return [(st, True)]
            s = s[2]
        elif s[0] in ('map', 'set'):
            if s[1]:
                return [(st, False)]
            if s[2] is None:
                return [(st, True)]
            s = s[2]
        elif s[0] == 'c':
            return [(st, not s[1])]
        if classify(self.ttype.get(s, '')) == 'str':
            return self.decide_eq(st, s, C(''))
        if s[0] == 't' and s[1] == 'cat':
            return self.decide_eq(st, s, C(''))
        key = T('empty', s)
        out = []
        for b in (True, False):
            s2 = st.copy()
            f = s2.facts.get(key)
            if f and C(b) not in f[1]:
                continue
            s2.facts[key] = ('in', frozenset([C(b)]))
            if b:
                s2.facts[T('more', s, C(0))] = ('in', frozenset([FALSE]))
            out.append((s2, b))
        return out

    def len_rel(self, st, rels, s, n, a, b):
        """len(s) rel n for small n"""
        if s[0] == 'seq':
            m = len(s[1]) + len(s[3])
            if s[2] is None:
                r = '<' if m < n else '>' if m > n else '='
                return [(st, r in rels)]
            if m > 0:
                # len = m + len(mid) -> compare mid with n-m
                return self.len_rel(st, rels, s[2], n - m, a, b)
            s = s[2]
        if n < 0:
            return [(st, '>' in rels)]
        if n == 0:
            out = []
            for s2, e in self.decide_empty(st, s):
                out.append((s2, ('=' if e else '>') in rels))
            return out
        # n >= 1: split emptiness first when that decides
        out = []
        for s2, e in self.decide_empty(st, s):
            if e:
                out.append((s2, '<' in rels))
            else:
                L = self.typed(T('len', s), 'unsigned long')
                self.assume_rel(s2, L, C(0), {'>'})
                pos = self.possible_rels(s2, L, C(n))
                yes, no = pos & set(rels), pos - set(rels)
                if yes:
                    s3 = s2.copy()
                    self.assume_rel(s3, L, C(n), yes)
                    out.append((s3, True))
                if no:
                    s3 = s2.copy()
                    self.assume_rel(s3, L, C(n), no)
                    out.append((s3, False))
        return out

    # ------------------------------------------------------------------ store
    def canon_loc(self, st, loc):
        while True:
            v = st.store.get(loc)
            if v is not None and v[0] == 'alias':
                loc = v[1]
            else:
                return loc

    def default(self, typ, name):
        k = classify(typ)
        t = strip_t(typ)
        if k == 'seq':
            return ('seq', (), None, ())
        if k in ('map', 'set'):
            return (k, (), None)
        if k == 'str':
            return C('')
        if k in ('func', 'smart', 'opt'):
            return NULL
        if k == 'cls' and self.p.enums.get(t):
            return self.fresh('uninit:' + name, t)
        if k == 'cls':
            return None
        return self.fresh('uninit:' + name, t)

    def opaque_of_type(self, term, typ):
        """value of the given type whose content is unknown and identified by `term`"""
        t = strip_t(typ)
        k = classify(t)
        if k == 'seq':
            self.typed(term, t)
            return ('seq', (), term, ())
        if k in ('map', 'set'):
            self.typed(term, t)
            return (k, (), term)
        self.typed(term, t)
        return term

    def read(self, st, loc, typ=''):
        loc = self.canon_loc(st, loc)
        v = st.store.get(loc)
        if v is not None:
            return v
        if loc[0] == 'self':
            return loc[1]
        if loc[0] == 'fld':
            base, name = loc[1], loc[2]
            v = self.opaque_of_type(T('fld', base, name), typ or 'int')
            if typ:
                st.store[loc] = v
            return v
        if loc[0] == 'part':
            whole = self.read(st, loc[1])
            return self.part(st, whole, loc[2])
        if loc[0] == 'elemat':
            # element of a container at a known index: ('elemat', seqloc, idx)
            whole = self.read(st, loc[1])
            if whole[0] == 'seq':
                i = loc[2]
                if i < len(whole[1]):
                    return whole[1][i]
            return self.fresh('elemat', typ)
        if loc[0] == 'mapval':
            whole = self.read(st, loc[1])
            if whole[0] == 'map':
                for k, v in whole[1]:
                    if k == loc[2]:
                        return v
                if whole[2] is not None:
                    return self.opaque_of_type(T('mapat', whole[2], loc[2]), typ or self.mapval_type(whole[2]))
            return self.fresh('mapval', typ)
        v = self.opaque_of_type(self.fresh('unk:' + str(loc[0]), strip_t(typ)), typ or 'int')
        st.store[loc] = v
        return v

    def mapval_type(self, base):
        ta = split_targs(strip_t(self.ttype.get(base, '')))
        return ta[1] if len(ta) > 1 else 'int'

    def part(self, st, whole, i):
        if whole[0] == 'tup':
            return whole[1][i]
        ta = split_targs(strip_t(self.ttype.get(whole, '')))
        typ = ta[i] if i < len(ta) else 'int'
        return self.opaque_of_type(T('part', whole, i), typ)

    def write(self, st, loc, v):
        loc = self.canon_loc(st, loc)
        if loc[0] == 'part':
            whole = self.read(st, loc[1])
            if whole[0] == 'tup':
                l = list(whole[1])
                l[loc[2]] = v
                self.write(st, loc[1], ('tup', tuple(l)))
                return
            self.ev(st, 'write', loc, v)
            return
        if loc[0] == 'elemat':
            whole = self.read(st, loc[1])
            if whole[0] == 'seq' and loc[2] < len(whole[1]):
                l = list(whole[1])
                l[loc[2]] = v
                self.write(st, loc[1], ('seq', tuple(l), whole[2], whole[3]))
            return
        if loc[0] == 'mapval':
            whole = self.read(st, loc[1])
            if whole[0] == 'map':
                ents = tuple((k, v if k == loc[2] else x) for k, x in whole[1])
                if not any(k == loc[2] for k, _ in whole[1]):
                    ents = ents + ((loc[2], v),)
                st.store[self.canon_loc(st, loc[1])] = ('map', ents, whole[2])
                self.ev(st, 'mapset', self.canon_loc(st, loc[1]), loc[2], v)
            return
        if loc[0] == 'self':
            self.ev(st, 'assignobj', loc[1], v)
            self.copy_fields(st, loc[1], v)
            return
        st.store[loc] = v
        if loc[0] in ('fld', 'g', 'elem'):
            self.ev(st, 'set', loc, v)

    def copy_fields(self, st, dst, src):
        cls = self.clsof(dst) or self.clsof(src)
        d = st.store.get(('fld', src, 'described'))
        if d is not None:
            st.store[('fld', dst, 'described')] = d
        else:
            st.store.pop(('fld', dst, 'described'), None)
        if not cls or cls not in self.p.records:
            st.store[('contents', dst)] = src
            return
        for f in self.p.fields(cls):
            v = self.read(st, ('fld', src, f['n']), f['t'])
            st.store[('fld', dst, f['n'])] = v if f['t'].strip().endswith('&') else self.copyval(st, v, f['t'])

    def copyval(self, st, v, typ):
        """copying a value of class type makes a new object"""
        k = classify(typ)
        if k == 'cls' and strip_t(typ) in self.p.records and v[0] in ('o', 'a', 't'):
            o = self.newobj(strip_t(typ))
            self.copy_fields(st, o, v)
            st.store[('copyof', o)] = v
            return o
        return v

    def clsof(self, v):
        if v[0] == 'o':
            return v[2]
        t = self.ttype.get(v)
        if t:
            t = strip_t(t)
            while t.endswith('*'):
                t = strip_t(t[:-1])
            if head_t(t) in SMART:
                t = strip_t(split_targs(t)[0])
            return t
        return None

    # ------------------------------------------------------------------ running
    def run(self, fn, this=None, args=None, st=None, name=None):
        """analyse a function from the given abstract inputs -> list of Outcome"""
        st = st or St()
        res = self.invoke(st, fn, this, args or [], None)
        outs = []
        for s, v in res:
            if isinstance(v, Exc):
                if v.cls == '!ub':
                    outs.append(Outcome(s, 'ub', v.val))
                else:
                    outs.append(Outcome(s, 'exc', v.val, v.cls))
            else:
                outs.append(Outcome(s, 'ret', v))
        return outs

    def arg_atom(self, name, typ):
        return self.opaque_of_type(('a', 0, 'arg:' + name), typ)

    def sym_args(self, st, fn, override=None):
        """one opaque value per parameter; reference parameters of non-class type get a location"""
        out = []
        for p in fn['params']:
            if override and p['n'] in override:
                v = override[p['n']]
            else:
                v = self.arg_atom(p['n'], p['t'])
            if p['t'].strip().endswith('&') and (classify(p['t']) not in ('cls',) or strip_t(p['t']) in self.p.enums):
                loc = ('argloc', p['n'])
                st.store[loc] = v
                out.append(('ref', loc))
            else:
                if p['t'].strip().endswith('&') and v[0] == 'a' and v not in st.facts:
                    st.facts[v] = ('out', frozenset([NULL]))
                out.append(v)
        return out

    def this_obj(self, cls):
        return ('o', 0, cls)

    def invoke(self, st, fn, this, args, caller, lam=None):
        """args: values; for reference parameters of non-class type a ('ref', loc)"""
        self.n += 1
        fid = self.n
        depth = (caller.depth + 1) if caller else 0
        name = fn.get('n', 'lambda') if lam is None else 'lambda'
        file = fn.get('file') or (caller.file if caller else '')
        fr = Fr(fid, fn, this, depth, name, file)
        if lam is None:
            self.analysed.add(fn['f'])
        if depth > self.cfg.max_depth:
            raise TooComplex('call depth in ' + name)
        if lam is not None:
            for (vid, kind, val) in lam[3]:
                st.store[('v', fid, vid)] = ('alias', val) if kind == 'ref' else val
        for p, a in zip(fn['params'], args):
            isref = p['t'].strip().endswith('&')
            if isref and a[0] == 'ref':
                st.store[('v', fid, p['id'])] = ('alias', a[1])
            elif a[0] == 'ref' and classify(p['t']) not in ('ptr',):
                st.store[('v', fid, p['id'])] = self.read(st, a[1])
            else:
                st.store[('v', fid, p['id'])] = a
        if len(args) < len(fn['params']):
            for p in fn['params'][len(args):]:
                st.store[('v', fid, p['id'])] = self.fresh('missing:' + p['n'], p['t'])
        outer_temps = st.temps
        st.temps = ()
        states = [(st, 'next', None)]
        if fn.get('isctor'):
            states = self.run_inits(st, fn, fr)
        out = []
        if fn.get('body') is not None:
            nxt = []
            for s, ctl, v in states:
                if ctl == 'next':
                    nxt += self.exec(fn['body'], s, fr)
                else:
                    nxt.append((s, ctl, v))
            states = nxt
        elif fn.get('defaulted') and not fn.get('isctor') and not fn.get('isdtor'):
            pass
        held = [p for p in fn['params'] if head_t(strip_t(p['t'])) in ('std::unique_ptr', 'std::shared_ptr') and not p['t'].strip().endswith('&')]
        if held:
            nxt = []
            for s, ctl, v in states:
                nxt += self.leave_scope(s, ctl, v, held, fr)
            states = nxt
        for s, ctl, v in states:
            if ctl == 'exc':
                val = v
            elif ctl == 'ret':
                val = v if v is not None else C(None)
            else:
                val = C(None)
            # drop the frame (keep what by-reference results or closures may still point to)
            keep = self.escaping(val)
            for k in [k for k in s.store if k[0] == 'v' and k[1] == fid and k not in keep]:
                del s.store[k]
            s.temps = outer_temps
            out.append((s, val))
        return self.merge(out)

    def escaping(self, v):
        keep = set()
        if isinstance(v, Exc):
            v = v.val
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'v':
                    keep.add(x)
                todo += [y for y in x if isinstance(y, tuple)]
        return keep

    def run_inits(self, st, fn, fr):
        states = [(st, 'next', None)]
        for i in fn.get('inits', []):
            nxt = []
            for s, ctl, v in states:
                if ctl != 'next':
                    nxt.append((s, ctl, v))
                    continue
                if 'field' in i:
                    f = self.p.field(fn['cls'], i['field'])
                    t = f['t'] if f else i['e'].get('t', '') if i['e'] else ''
                    if t.strip().endswith('&'):
                        x = i['e']
                        while x['k'] == 'ilist' and len(x['a']) == 1:
                            x = x['a'][0]
                        for s2, loc in self.lv(x, s, fr):
                            if isinstance(loc, Exc):
                                nxt.append((s2, 'exc', loc))
                            else:
                                v = s2.store.get(self.canon_loc(s2, loc)) if loc[0] != 'self' and classify(t) == 'cls' and not self.p.enums.get(strip_t(t)) else None
                                if loc[0] == 'self':
                                    s2.store[('fld', fr.this, i['field'])] = loc[1]
                                elif v is not None and v[0] in ('o', 'a', 't'):
                                    s2.store[('fld', fr.this, i['field'])] = v
                                else:
                                    s2.store[('fld', fr.this, i['field'])] = ('alias', loc)
                                nxt.append((s2, 'next', None))
                        continue
                    for s2, val in self.init_value(i['e'], t, s, fr, i['field']):
                        if isinstance(val, Exc):
                            nxt.append((s2, 'exc', val))
                        else:
                            s2.store[('fld', fr.this, i['field'])] = val
                            nxt.append((s2, 'next', None))
                elif i.get('e') and i['e']['k'] == 'ctor':
                    e = i['e']
                    cf = self.p.funcs.get(e['f'])
                    for s2, args in self.eval_args(e['a'], s, fr, cf):
                        if isinstance(args, Exc):
                            nxt.append((s2, 'exc', args))
                            continue
                        if cf is not None and ('body' in cf or cf.get('inits')) and not e.get('implicit'):
                            for s3, r in self.invoke(s2, cf, fr.this, args, fr):
                                nxt.append((s3, 'exc', r) if isinstance(r, Exc) else (s3, 'next', None))
                        else:
                            self.default_fields(s2, fr.this, e['c'])
                            self.ev(s2, 'basector', e['c'], tuple(args))
                            nxt.append((s2, 'next', None))
                else:
                    nxt.append((s, 'next', None))
            states = nxt
        return states

    def default_fields(self, st, obj, cls):
        if cls not in self.p.records:
            return
        for f in self.p.fields(cls):
            loc = ('fld', obj, f['n'])
            if loc in st.store:
                continue
            if f.get('init'):
                r = self.init_value(f['init'], f['t'], st, Fr(0, None, obj, 0, cls, ''), f['n'])
                if len(r) == 1 and not isinstance(r[0][1], Exc) and r[0][0] is st:
                    st.store[loc] = r[0][1]
                    continue
            v = self.default(f['t'], f['n'])
            if v is None:
                v = self.newobj(strip_t(f['t']))
                self.default_fields(st, v, strip_t(f['t']))
            st.store[loc] = v

    def merge(self, results):
        if len(results) < 2:
            return results
        out = self.distinct(results, lambda x: (self.cheap(x[0]), sh(x[1])), lambda x: self.canon(x[0], x[1]))
        if len(out) > self.cfg.max_states:
            raise TooComplex('too many states')
        return out

    def distinct(self, items, cheap, full):
        """first of each class of equal states; the full canonical form only where the cheap one coincides"""
        groups = {}
        for x in items:
            groups.setdefault(cheap(x), []).append(x)
        keep = set()
        for g in groups.values():
            if len(g) == 1:
                keep.add(id(g[0]))
                continue
            seen = {}
            for x in g:
                seen.setdefault(full(x), x)
            keep.update(id(x) for x in seen.values())
        return [x for x in items if id(x) in keep]

    def cheap(self, st):
        """equal for equal canonical forms"""
        h, log, n, unk = 0, st.log, 0, ()
        c = st.shape
        if c is not None and c[0] <= len(log) and log[c[0] - 1] is c[1]:
            n, h, unk = c[0], c[2], c[3]
        if n < len(log):
            for e in log[n:]:
                h = hash((h, sh(e)))
                if e[0] == 'drv' and e[3][0] not in ('c', 'e'):
                    unk = unk + (e[3],)
            st.shape = (len(log), log[-1], h, unk)
        return (h, len(log), len(st.locks), len(st.temps), tuple([sh(st.facts.get(u)) for u in unk]))

    # canonical form of a state (atoms renamed in order of first appearance)
    def canon(self, st, *extra):
        ren = {}
        done, log, cl = (), st.log, st.clog
        if cl is not None:
            n = len(cl[0])
            if n <= len(log) and log[n - 1] is cl[0][-1] and log[0] is cl[0][0]:
                done, ren = cl[1], dict(cl[2])

        def c(v):
            if isinstance(v, tuple):
                if v and (v[0] == 'c' or v[0] == 'e'):
                    return v
                if len(v) == 3 and v[0] == 'a' and isinstance(v[1], int):
                    if v[1] == 0:
                        return v
                    if v not in ren:
                        ren[v] = ('A', len(ren))
                    return ren[v]
                if len(v) >= 3 and v[0] == 'o' and isinstance(v[1], int) and v[1] > 0:
                    if v not in ren:
                        ren[v] = ('O', len(ren), v[2])
                    return ren[v]
                return tuple(c(x) for x in v)
            if isinstance(v, frozenset):
                return ('fs',) + tuple(sorted((c(x) for x in v), key=repr))
            if isinstance(v, Exc):
                return ('exc', v.cls, c(v.val))
            return v
        done = done + tuple([c(x) for x in log[len(done):]])
        if log:
            st.clog = (log, done, dict(ren))
        parts = [done, tuple(c(x) for x in extra), c(st.locks), c(st.temps), tuple(st.taint), c(st.exc)]
        items = sorted(st.store.items(), key=lambda kv: repr(kv[0]) if kv[0][0] == 'v' else '~')
        live = []
        rest = []
        for k, v in st.store.items():
            if k[0] in ('v', 'g', 'sl', 'argloc') or (k[0] == 'fld' and k[1][0] == 'o' and k[1][1] == 0):
                live.append((k, v))
            else:
                rest.append((k, v))
        live.sort(key=lambda kv: repr(kv[0]))
        parts.append(tuple((k, c(v)) for k, v in live))
        # fields of reachable objects, repeatedly
        pending = rest
        progress = True
        while progress and pending:
            progress = False
            nxt = []
            ready = []
            for k, v in pending:
                if self.reach(k, ren):
                    ready.append((k, v))
                else:
                    nxt.append((k, v))
            if ready:
                ready.sort(key=lambda kv: repr(c(kv[0])))
                parts.append(tuple((c(k), c(v)) for k, v in ready))
                progress = True
            pending = nxt
        fs = []
        for t, f in st.facts.items():
            if self.reach(t, ren):
                fs.append((c(t), f[0], c(f[1])))
        for (a, b), s in st.rels.items():
            if self.reach(a, ren) and self.reach(b, ren):
                fs.append((c(a), c(b), tuple(sorted(s))))
        fs.sort(key=repr)
        parts.append(tuple(fs))
        parts.append(c(st.foralls))
        return tuple(parts)

    def reach(self, t, ren):
        """every fresh atom/object in t already named"""
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == 'a' and isinstance(t[1], int):
                return t[1] == 0 or t in ren
            if len(t) >= 3 and t[0] == 'o' and isinstance(t[1], int) and t[1] > 0:
                return t in ren
            return all(self.reach(x, ren) for x in t if isinstance(x, tuple))
        return True

    # ------------------------------------------------------------------ statements
    # exec returns list of (st, ctl, val); ctl in next/ret/brk/cont/exc
    def exec(self, s, st, fr):
        self.nstates += 1
        if self.nstates > self.cfg.max_steps or (self.nstates & 63) == 0 and time.monotonic() > self.deadline:
            raise TooComplex('analysis budget exceeded')
        if s is None:
            return [(st, 'next', None)]
        return getattr(self, 's_' + s['s'])(s, st, fr)

    def full(self, results, base):
        """end of full expression: destroy temporaries created since `base`"""
        out = []
        for s, v in results:
            if len(s.temps) > len(base):
                extra = s.temps[len(base):]
                s.temps = base
                todo = [(s, v)]
                for o in reversed(extra):
                    nxt = []
                    for s1, v1 in todo:
                        if isinstance(v1, Exc) and v1.cls == '!ub':
                            nxt.append((s1, v1))
                            continue
                        if not isinstance(v1, Exc) and o == v1:
                            s1.temps = s1.temps + (o,)
                            nxt.append((s1, v1))
                            continue
                        for s2, e in self.destroy(s1, o):
                            nxt.append((s2, e if e is not None else v1))
                    todo = nxt
                out += todo
            else:
                out.append((s, v))
        return out

    def evalf(self, e, st, fr):
        base = st.temps
        return self.full(self.eval(e, st, fr), base)

    def s_null(self, s, st, fr):
        return [(st, 'next', None)]

    def s_unk(self, s, st, fr):
        self.taint(st, 'statement ' + s.get('c', '?'))
        return [(st, 'next', None)]

    def s_label(self, s, st, fr):
        return self.exec(s['b'], st, fr)

    def s_expr(self, s, st, fr):
        out = []
        base = st.temps
        for s2, v in self.full(self.eval(s['e'], st, fr), base):
            if not isinstance(v, Exc) and len(s2.temps) > len(base):
                # discarded temporary
                extra = s2.temps[len(base):]
                s2.temps = base
                todo = [(s2, None)]
                for o in reversed(extra):
                    todo = [(s4, e4 or e3) for s3, e3 in todo for s4, e4 in self.destroy(s3, o)]
                out += [(s3, 'exc', e) if e is not None else (s3, 'next', None) for s3, e in todo]
            elif isinstance(v, Exc):
                out.append((s2, 'exc', v))
            else:
                out.append((s2, 'next', None))
        return self.mergec(out)

    def mergec(self, res):
        if len(res) < 2:
            return res
        return self.distinct(res, lambda x: (x[1], self.cheap(x[0]), sh(x[2])),
                             lambda x: (x[1], self.canon(x[0], x[2]) if x[2] is not None else self.canon(x[0])))

    def s_block(self, s, st, fr):
        return self.seq_stmts(s['b'], st, fr)

    def seq_stmts(self, stmts, st, fr, start=0):
        """run statements with scope-exit destructors"""
        declared = []
        for x in stmts:
            if x['s'] == 'decl':
                declared += [v for v in x['v']]
        states = [(st, 'next', None)]
        for i, x in enumerate(stmts):
            if i < start:
                continue
            nxt = []
            for s, ctl, v in states:
                if ctl == 'next':
                    nxt += self.exec(x, s, fr)
                else:
                    nxt.append((s, ctl, v))
            states = self.mergec(nxt)
            if not any(c == 'next' for _, c, _ in states):
                break
        if not declared:
            return states
        out = []
        for s, ctl, v in states:
            out += self.leave_scope(s, ctl, v, declared, fr)
        return self.mergec(out)

    def leave_scope(self, s, ctl, v, declared, fr):
        todo = [(s, ctl, v)]
        if ctl == 'exc' and v.cls == '!ub':
            return todo
        for d in reversed(declared):
            loc = ('v', fr.fid, d['id'])
            nxt = []
            for s1, c1, v1 in todo:
                val = s1.store.get(loc)
                if val is None or val[0] == 'alias' or d.get('static'):
                    nxt.append((s1, c1, v1))
                    continue
                if c1 == 'ret' and v1 == val and val[0] == 'o':
                    # returned by (elided) move
                    nxt.append((s1, c1, v1))
                    continue
                for s2, e in self.destroy(s1, val, d['t']):
                    s2.store.pop(loc, None) if not (c1 == 'ret' and loc in self.escaping(v1)) else None
                    nxt.append((s2, 'exc', e) if e is not None else (s2, c1, v1))
            todo = nxt
        return todo

    def destroy(self, st, val, typ=''):
        """run the destructor of a value leaving scope -> list of (st, exc or None)"""
        if val[0] == 'o':
            cls = val[2]
            if st.store.get(('dead', val)):
                return [(st, None)]
            if cls == 'lock':
                m = st.store.get(('fld', val, 'm'))
                if st.store.get(('fld', val, 'owns')) == TRUE and m is not None:
                    self.unlock(st, m)
                st.store.pop(('fld', val, 'owns'), None)
                st.store.pop(('fld', val, 'm'), None)
                return [(st, None)]
            if cls == 'std::future':
                if st.store.get(('fld', val, 'joined')) is None:
                    self.ev(st, 'join', val, 'implicit')
                    st.store[('fld', val, 'joined')] = TRUE
                return [(st, None)]
            if len(val) > 3 and val[3] == 'noown':
                return [(st, None)]
            if 'shared_ptr' in typ and not self.last_owner(st, val):
                return [(st, None)]
            if typ and classify(typ) == 'ptr' or typ and typ.strip().endswith('&'):
                return [(st, None)]
            r = self.p.records.get(cls)
            if r is not None:
                return self.destroy_obj(st, val, cls)
        elif typ and classify(typ) == 'smart' and val[0] in ('a', 't', 'o') and 'unique_ptr' in typ:
            if not self.is_null(st, val):
                self.ev(st, 'destroy', val)
        elif val[0] in ('seq', 'map') and typ:
            return self.destroy_items(st, val, typ)
        return [(st, None)]

    def own(self, st, val, n):
        """one more shared owner (n is True), or the only one"""
        if val[0] == 'o':
            old = st.store.get(('owners', val))
            st.store[('owners', val)] = C((old[1] if old is not None else 1) + 1 if n else 1)

    def last_owner(self, st, val):
        n = st.store.get(('owners', val))
        if n is None:
            return True
        st.store[('owners', val)] = C(n[1] - 1)
        return n[1] <= 1

    def destroy_items(self, st, val, typ):
        """destructors of the known elements of a container"""
        ta = split_targs(strip_t(typ))
        et = (ta[1] if val[0] == 'map' and len(ta) > 1 else ta[0]) if ta else ''
        if not (classify(et) == 'cls' and strip_t(et) in self.p.records or classify(et) == 'async' or head_t(strip_t(et)) == 'std::unique_ptr'):
            return [(st, None)]
        items = [x[1] for x in val[1]] if val[0] == 'map' else list(val[1]) + list(val[3])
        out = [(st, None)]
        for x in items:
            if x[0] != 'o':
                continue
            out = [(s2, e2 or e) for s, e in out for s2, e2 in self.destroy(s, x, et)]
        return out

    def destroy_obj(self, st, val, cls):
        out = [(st, None)]
        st.store[('dead', val)] = TRUE
        for c in self.p.bases(cls):
            r = self.p.records.get(c)
            if not r:
                continue
            if r.get('userdtor') and r.get('dtor') in self.p.funcs and 'body' in self.p.funcs[r['dtor']]:
                fnd = self.p.funcs[r['dtor']]
                nxt = []
                for s, e in out:
                    for s2, v in self.invoke(s, fnd, val, [], None):
                        nxt.append((s2, v if isinstance(v, Exc) else e))
                out = nxt
            # members
            for f in reversed(r['fields']):
                k = classify(f['t'])
                nxt = []
                for s, e in out:
                    fv = s.store.get(('fld', val, f['n']))
                    if fv is not None and (fv[0] == 'o' and k in ('cls', 'async', 'smart') or fv[0] in ('seq', 'map')):
                        for s2, e2 in self.destroy(s, fv, f['t']):
                            nxt.append((s2, e2 or e))
                    else:
                        nxt.append((s, e))
                out = nxt
        return out

    def is_null(self, st, v):
        return self.known(st, v) == NULL

    def s_decl(self, s, st, fr):
        states = [(st, 'next', None)]
        for d in s['v']:
            nxt = []
            for s1, ctl, v in states:
                if ctl != 'next':
                    nxt.append((s1, ctl, v))
                else:
                    nxt += self.declare(d, s1, fr)
            states = nxt
        return states

    def declare(self, d, st, fr):
        loc = ('v', fr.fid, d['id'])
        t = d['t']
        if d.get('static'):
            key = ('sl', fr.fn.get('f') or fr.name, d['id'])
            if key in st.store:
                st.store[loc] = ('alias', key)
                return [(st, 'next', None)]
            loc0, loc = loc, key
        out = []
        if 'init' in d and t.strip().endswith('&'):
            base = st.temps
            for s2, l in self.lv(d['init'], st, fr):
                if isinstance(l, Exc):
                    out.append((s2, 'exc', l))
                else:
                    s2.temps = base
                    if l[0] == 'self':
                        s2.store[loc] = l[1] if l[1][0] != 'o' or l[1][2] not in ('lock',) else l[1]
                        if 'binds' not in d:
                            s2.store[loc] = self.noown(l[1])
                    else:
                        s2.store[loc] = ('alias', l)
                    out.append((s2, 'next', None))
        elif 'init' in d:
            base = st.temps
            for s2, v in self.full(self.init_value(d['init'], t, st, fr, d['n']), base):
                if isinstance(v, Exc):
                    out.append((s2, 'exc', v))
                else:
                    s2.temps = tuple(x for x in s2.temps if x != v)
                    s2.store[loc] = v
                    out.append((s2, 'next', None))
        else:
            v = self.default(t, d['n'])
            if v is None:
                v = self.newobj(strip_t(t))
                self.default_fields(st, v, strip_t(t))
            elif classify(t) in ('int', 'float', 'bool', 'ptr'):
                v = self.fresh('uninit:' + d['n'], strip_t(t))
            st.store[loc] = v
            out.append((st, 'next', None))
        if d.get('static'):
            for s2, c, v in out:
                if c == 'next':
                    s2.store[loc0] = ('alias', key)
        if 'binds' in d:
            for s2, c, v in out:
                if c == 'next':
                    l = self.canon_loc(s2, loc)
                    whole = self.read(s2, l, t)
                    for i, b in enumerate(d['binds']):
                        if classify(t) == 'tup' or whole[0] == 'tup':
                            s2.store[('v', fr.fid, b['id'])] = ('alias', ('part', l, i))
                        else:
                            flds = self.p.fields(strip_t(t))
                            if i < len(flds):
                                s2.store[('v', fr.fid, b['id'])] = ('alias', ('fld', whole, flds[i]['n']))
                            else:
                                s2.store[('v', fr.fid, b['id'])] = self.fresh('bind', b['t'])
        return out

    def noown(self, v):
        return v

    def init_value(self, e, t, st, fr, name):
        """value for initialising a variable of type t from expression e"""
        if e is None:
            return [(st, self.default(t, name) or self.newobj(strip_t(t)))]
        k = classify(t)
        if e['k'] == 'ilist':
            return self.ilist_value(e, t, st, fr)
        out = []
        for s, v in self.eval(e, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            if v[0] == 'ref' and k not in ('ptr',):
                v = self.read(s, v[1], t)
            if k in ('seq', 'map', 'set') and v[0] not in ('seq', 'map', 'set'):
                v = self.opaque_of_type(v, t)
            out.append((s, v))
        return out

    def ilist_value(self, e, t, st, fr):
        k = classify(t)
        ts = strip_t(t)
        if len(e['a']) == 1 and k not in ('seq', 'map', 'set', 'tup') and not (k == 'cls' and ts in self.p.records):
            return self.init_value(e['a'][0], t, st, fr, '')
        if not e['a'] and k in ('int', 'bool', 'float', 'ptr', 'smart', 'func', 'str', 'opt'):
            z = {'int': C(0), 'bool': FALSE, 'float': C(0.0), 'str': C('')}.get(k, NULL)
            return [(st, z)]
        if k == 'cls' and ts in self.p.records:
            o = self.newobj(ts)
            flds = self.p.fields(ts)
            states = [(st, None)]
            for i, f in enumerate(flds):
                nxt = []
                for s, ex in states:
                    if ex is not None:
                        nxt.append((s, ex))
                        continue
                    if i < len(e['a']):
                        for s2, v in self.init_value(e['a'][i], f['t'], s, fr, f['n']):
                            if isinstance(v, Exc):
                                nxt.append((s2, v))
                            else:
                                s2.store[('fld', o, f['n'])] = v
                                nxt.append((s2, None))
                    else:
                        self.default_fields(s, o, ts)
                        nxt.append((s, None))
                states = nxt
            return [(s, ex if ex is not None else o) for s, ex in states]
        if len(e['a']) == 1 and k in ('seq', 'map', 'set', 'tup') and strip_t(e['a'][0].get('t', '')) == ts:
            return self.init_value(e['a'][0], t, st, fr, '')
        out = []
        et = split_targs(ts)
        elt = et[0] if et else (ts[:ts.rfind('[')] if ts.endswith(']') else '')
        if k == 'map' and len(et) >= 2:
            elt = 'std::pair<const %s, %s>' % (et[0], et[1])
        if head_t(ts) == 'std::array' and len(e['a']) == 1 and e['a'][0]['k'] == 'ilist':
            return self.ilist_value(e['a'][0], t, st, fr)
        states = [(st, ())]
        for i, x in enumerate(e['a']):
            nxt = []
            for s, acc in states:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                xt = (et[i] if k == 'tup' and i < len(et) else elt) or x.get('t', '')
                for s2, v in self.init_value(x, xt, s, fr, ''):
                    nxt.append((s2, v if isinstance(v, Exc) else acc + (v,)))
            states = nxt
        for s, acc in states:
            if isinstance(acc, Exc):
                out.append((s, acc))
            elif k == 'seq':
                out.append((s, ('seq', acc, None, ())))
            elif k == 'map':
                ents = []
                for x in acc:
                    kv = x[1] if x[0] == 'tup' else (self.part(s, x, 0), self.part(s, x, 1))
                    if all(kk != kv[0] for kk, _ in ents):
                        ents.append((kv[0], kv[1]))
                out.append((s, ('map', tuple(ents), None)))
            elif k == 'set':
                ents = []
                for x in acc:
                    if x not in [y for y, _ in ents]:
                        ents.append((x, NULL))
                out.append((s, ('set', tuple(ents), None)))
            elif k == 'tup':
                out.append((s, ('tup', acc)))
            elif len(acc) == 1:
                out.append((s, acc[0]))
            else:
                out.append((s, ('seq', acc, None, ())))
        return out

    def cond(self, e, st, fr):
        """evaluate a condition -> (st, True/False/Exc)"""
        out = []
        if e['k'] == 'un' and e['op'] == '!':
            return [(s, (not b) if not isinstance(b, Exc) else b) for s, b in self.cond(e['e'], st, fr)]
        if e['k'] == 'bin' and e['op'] in ('&&', '||'):
            for s, b in self.cond(e['lhs'], st, fr):
                if isinstance(b, Exc):
                    out.append((s, b))
                elif b == (e['op'] == '&&'):
                    out += self.cond(e['rhs'], s, fr)
                else:
                    out.append((s, b))
            return out
        for s, v in self.evalf(e, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                if v[0] == 'ref':
                    t = e.get('t', '')
                    if classify(t) != 'ptr':
                        v = self.read(s, v[1], t)
                for s2, b in self.decide(s, v):
                    out.append((s2, b))
        return out

    def s_if(self, s, st, fr):
        out = []
        pre = [(st, 'next', None)]
        declared = []
        if 'init' in s:
            pre = self.exec(s['init'], st, fr)
            if s['init']['s'] == 'decl':
                declared += s['init']['v']
        if 'cv' in s:
            nxt = []
            for s1, c, v in pre:
                nxt += self.declare(s['cv'], s1, fr) if c == 'next' else [(s1, c, v)]
            pre = nxt
            declared.append(s['cv'])
        for s1, c, v in pre:
            if c != 'next':
                out.append((s1, c, v))
                continue
            for s2, b in self.cond(s['c'], s1, fr):
                if isinstance(b, Exc):
                    r = [(s2, 'exc', b)]
                elif b:
                    self.note(s2, fr, s['l'], 'true')
                    r = self.exec(s['th'], s2, fr)
                else:
                    self.note(s2, fr, s['l'], 'false')
                    r = self.exec(s['el'], s2, fr) if 'el' in s else [(s2, 'next', None)]
                if declared:
                    r = [y for x in r for y in self.leave_scope(x[0], x[1], x[2], declared, fr)]
                out += r
        return self.mergec(out)

    def s_return(self, s, st, fr):
        if 'e' not in s:
            return [(st, 'ret', None)]
        rt = fr.fn.get('ret', '') if fr.fn else ''
        out = []
        if rt.strip().endswith('&') and classify(rt) != 'cls':
            for s2, l in self.lv(s['e'], st, fr):
                if isinstance(l, Exc):
                    out.append((s2, 'exc', l))
                else:
                    out.append((s2, 'ret', ('ref', self.canon_loc(s2, l)) if l[0] != 'self' else l[1]))
            return out
        base = st.temps
        e = s['e']
        for s2, v in self.full(self.init_value(e, rt or e.get('t', ''), st, fr, 'ret'), base):
            if isinstance(v, Exc):
                out.append((s2, 'exc', v))
            else:
                s2.temps = base
                out.append((s2, 'ret', v))
        return out

    def s_break(self, s, st, fr):
        return [(st, 'brk', None)]

    def s_continue(self, s, st, fr):
        return [(st, 'cont', None)]

    def s_case(self, s, st, fr):
        return self.exec(s['b'], st, fr)

    def s_default(self, s, st, fr):
        return self.exec(s['b'], st, fr)

    def s_switch(self, s, st, fr):
        # flatten the body into (labels, statement) list
        flat = []

        def add(x):
            labels = []
            while x is not None and x['s'] in ('case', 'default'):
                labels.append(x['c'] if x['s'] == 'case' else 'default')
                x = x['b']
            flat.append((labels, x))
        body = s['b']
        for x in (body['b'] if body['s'] == 'block' else [body]):
            add(x)
        stmts = [x for _, x in flat if x is not None]
        idx = {}
        pos = 0
        labels = []
        default = None
        for labs, x in flat:
            for l in labs:
                if l == 'default':
                    default = pos
                else:
                    labels.append((l, pos))
            if x is not None:
                pos += 1
        out = []
        pre = [(st, 'next', None)]
        if 'init' in s:
            pre = self.exec(s['init'], st, fr)
        if 'cv' in s:
            nxt = []
            for s1, c, v in pre:
                nxt += self.declare(s['cv'], s1, fr) if c == 'next' else [(s1, c, v)]
            pre = nxt
        for s1, c, v in pre:
            if c != 'next':
                out.append((s1, c, v))
                continue
            for s2, val in self.evalf(s['c'], s1, fr):
                if isinstance(val, Exc):
                    out.append((s2, 'exc', val))
                    continue
                if val[0] == 'ref':
                    val = self.read(s2, val[1], s['c'].get('t', ''))
                remaining = [s2]
                for l, p in labels:
                    nr = []
                    for s3 in remaining:
                        for s4, cv in self.eval(l, s3, fr):
                            for s5, b in self.decide_eq(s4, self.unint(val), self.unint(cv)):
                                if b:
                                    self.note(s5, fr, l.get('l', s['l']), 'case')
                                    out += self.seq_stmts(stmts, s5, fr, p)
                                else:
                                    nr.append(s5)
                    remaining = nr
                for s3 in remaining:
                    if default is not None:
                        self.note(s3, fr, s['l'], 'default')
                        out += self.seq_stmts(stmts, s3, fr, default)
                    else:
                        # an enum switch without default over all enumerators: value outside -> falls out
                        out.append((s3, 'next', None))
        return self.mergec([(a, 'next' if b == 'brk' else b, c) for a, b, c in out])

    def unint(self, v):
        return v[2] if v[0] == 't' and v[1] == 'int' else v

    def s_try(self, s, st, fr):
        out = []
        for s1, c, v in self.exec(s['b'], st, fr):
            if c != 'exc' or v.cls == '!ub':
                out.append((s1, c, v))
                continue
            todo = s1
            handled = False
            for h in s['h']:
                m = self.exc_match(v.cls, h.get('t'))
                if m == 'no':
                    continue
                sx = todo.copy() if m == 'maybe' else todo
                if 'v' in h:
                    sx.store[('v', fr.fid, h['v']['id'])] = v.val
                sx.exc = sx.exc + ((v.val, v.cls),)
                self.ev(sx, 'catch', v.cls, h.get('t', '...'))
                for s2, c2, v2 in self.exec(h['b'], sx, fr):
                    s2.exc = s2.exc[:-1] if s2.exc else s2.exc
                    out.append((s2, c2, v2))
                if m == 'yes':
                    handled = True
                    break
            if not handled:
                out.append((todo, 'exc', v))
        return self.mergec(out)

    def exc_match(self, cls, t):
        if t is None:
            return 'yes'
        if cls == '?':
            return 'maybe'
        if cls.startswith('?'):
            return 'yes' if cls[1:] == t else 'maybe'
        if cls == t or t in self.p.bases(cls):
            return 'yes'
        if t == 'std::exception':
            if cls.startswith('std::'):
                return 'yes'
            r = self.p.records.get(cls)
            if r is None and cls.startswith('sup::'):
                return 'yes'     # exceptions of the sup libraries derive from std::exception
        return 'no'

    # ---- loops
    def s_while(self, s, st, fr):
        return self.loop(st, fr, s, None, s.get('c'), None, s['b'], cv=s.get('cv'))

    def s_do(self, s, st, fr):
        return self.loop(st, fr, s, None, s.get('c'), None, s['b'], post=True)

    def s_for(self, s, st, fr):
        out = []
        pre = self.exec(s['init'], st, fr) if 'init' in s else [(st, 'next', None)]
        declared = s['init']['v'] if 'init' in s and s['init']['s'] == 'decl' else []
        for s1, c, v in pre:
            if c != 'next':
                out.append((s1, c, v))
                continue
            r = self.loop(s1, fr, s, None, s.get('c'), s.get('inc'), s['b'])
            for x in r:
                out += self.leave_scope(x[0], x[1], x[2], declared, fr) if declared else [x]
        return self.mergec(out)

    def loop(self, st, fr, node, _a, cond, inc, body, post=False, cv=None):
        """iterations whose loop test is decided are executed one by one; the rest of the loop is summarised"""
        if cv is not None or (cond is None or cond['k'] == 'bool') and not self.cfg.sequential:
            return self.loop_any(st, fr, node, _a, cond, inc, body, post, cv)
        out, work, heads = [], [(st, 0)], 0
        while work:
            s, it = work.pop()
            heads += 1
            if it >= 24 or heads > self.cfg.max_heads:
                out += self.loop_any(s, fr, node, _a, cond, inc, body, post and it == 0, cv)
                continue
            if post and it == 0:
                tests = [(s, True)]
            else:
                nf, nl = len(s.facts), len(s.log)
                tests = self.cond(cond, s.copy(), fr) if cond is not None else [(s.copy(), True)]
                if not self.cfg.unroll and (len(tests) != 1 or isinstance(tests[0][1], Exc) or len(tests[0][0].log) != nl):
                    out += self.loop_any(s, fr, node, _a, cond, inc, body, False, cv)
                    continue
            res = []
            for s1, b in tests:
                if isinstance(b, Exc):
                    out.append((s1, 'exc', b))
                elif not b:
                    out.append((s1, 'next', None))
                else:
                    res += self.exec(body, s1, fr)
            for s2, c, v in res:
                if c in ('next', 'cont'):
                    if inc is None:
                        work.append((s2, it + 1))
                        continue
                    for s3, v3 in self.evalf(inc, s2, fr):
                        if isinstance(v3, Exc):
                            out.append((s3, 'exc', v3))
                        else:
                            work.append((s3, it + 1))
                elif c == 'brk':
                    out.append((s2, 'next', None))
                else:
                    out.append((s2, c, v))
        return self.mergec(out)

    def loop_any(self, st, fr, node, _a, cond, inc, body, post=False, cv=None):
        """generic loop: fixpoint over canonical head states"""
        out = []
        loopid = (fr.file, node['l'])
        base_log = st.log
        nbase = self.n
        # worklist entries: (state, iteration number, previous head store, star set)
        work = [(st, 0, None, frozenset())]
        seen = set()
        count = 0
        first = True
        while work:
            s, it, prev, star = work.pop()
            count += 1
            if count > self.cfg.max_loop:
                raise TooComplex('loop at %s:%s does not converge' % (short(fr.file), node['l']))
            if it > 0:
                s, star = self.close_iter(s, base_log, star, prev, it, loopid)
            key = self.canon(s)
            if key in seen:
                continue
            seen.add(key)
            head = (dict(s.store), nbase)
            if cv is not None:
                r = [(x, c) for x, c, _ in self.declare(cv, s, fr)]
                tests = []
                for x, c in r:
                    tests += self.cond(cond, x, fr)
            elif cond is None or (post and it == 0):
                tests = [(s, True)]
            else:
                tests = self.cond(cond, s, fr)
            for s1, b in tests:
                if isinstance(b, Exc):
                    out.append((s1, 'exc', b))
                    continue
                if not b:
                    out.append((s1, 'next', None))
                    continue
                for s2, c, v in self.exec(body, s1, fr):
                    if c in ('next', 'cont'):
                        if inc is not None:
                            for s3, v3 in self.evalf(inc, s2, fr):
                                if isinstance(v3, Exc):
                                    out.append((s3, 'exc', v3))
                                else:
                                    work.append((s3, it + 1, head, star))
                        else:
                            work.append((s2, it + 1, head, star))
                    elif c == 'brk':
                        out.append((s2, 'next', None))
                    else:
                        out.append((s2, c, v))
        return self.mergec(out)

    def close_iter(self, s, base_log, star, prev, it, loopid):
        """fold the log of the finished iteration into the star set and widen loop-carried numbers"""
        pstore, pn = prev
        n0 = len(base_log)
        pos = n0
        if len(s.log) > n0 and s.log[n0][0] == 'star' and s.log[n0][1] == loopid:
            star = s.log[n0][2]
            pos = n0 + 1
        itlog = list(s.log[pos:])
        # widening
        for k in list(s.store):
            v = s.store[k]
            o = pstore.get(k)
            if o is None or o == v or v[0] == 'alias':
                continue
            isnum = (v[0] == 'c' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool)) or \
                (v[0] == 't' and v[1] in ('+', '-', '*'))
            oisnum = (o[0] == 'c' and isinstance(o[1], (int, float)) and not isinstance(o[1], bool)) or o[0] in 'at'
            kt = self.ttype.get(v) or self.ttype.get(o) or 'int'
            if isnum and oisnum:
                d = self.delta(o, v)
                if self.cfg.keep(('delta',)):
                    itlog.append(('delta', k, d))
                w = self.fresh('wid', kt)
                lo = self.cells(s, o)[0]
                s.store[k] = w
                if d == 1 and lo >= 0 and lo != float('inf'):
                    s.rels[(w, C(0))] = frozenset('>') if lo >= 0 else frozenset('=>')
            elif v[0] == 'it' and o[0] == 'it' and v[2][0] == 'cur' and o[2][0] == 'cur' and v[2][1] == o[2][1]:
                s.store[k] = ('it', v[1], ('cur', v[2][1], self.fresh('pos', 'unsigned long')))
            elif v[0] == 'seq' and o[0] == 'seq' and v[2] is not None and o[2] is not None and v[2] != o[2] and \
                    v[2][0] == 't' and self.contains(v[2], o[2]):
                # a list consumed element by element: some rest of it
                w = self.fresh('rest', self.ttype.get(v[2], ''))
                e = s.facts.get(T('empty', v[2]))
                if e:
                    s.facts[T('empty', w)] = e
                s.store[k] = ('seq', v[1], w, v[3])
                for k2, v2 in list(s.store.items()):
                    if v2[0] == 'it' and v2[2][0] == 'cur' and v2[2][1] == v[2]:
                        s.store[k2] = ('it', v2[1], ('cur', w, v2[2][2]))
            elif v[0] == 'seq' and o[0] == 'seq' and it >= 2 and (len(v[1]) + len(v[3])) > (len(o[1]) + len(o[3])):
                w = self.fresh('grown', self.ttype.get(v[2] or o[2] or ('a',), '') or 'std::vector<int>')
                s.store[k] = ('seq', (), w, ())
                s.facts[T('empty', w)] = ('in', frozenset([FALSE]))
            elif v[0] in ('map', 'set') and o[0] == v[0] and it >= 2 and len(v[1]) > len(o[1]):
                w = self.fresh('grown', self.ttype.get(v[2] or ('a',), ''))
                s.store[k] = (v[0], (), w)
                s.facts[T('empty', w)] = ('in', frozenset([FALSE]))
            elif v[0] == 't' and it >= 2 and self.contains(v, o):
                s.store[k] = self.fresh('wid', self.ttype.get(v, ''))
            elif v[0] == 'c' and isinstance(v[1], str) and it >= 4:
                s.store[k] = self.fresh('wid', 'std::basic_string<char>')
        for k in [k for k, v in s.store.items() if k[0] == 'fld' and len(k) == 3 and v == ('t', 'fld', k[1], k[2]) and k[1][:2] == ('t', 'elem')]:
            del s.store[k]      # an unchanged member of an element, read in this iteration
        lg = self.abstract_iter(s, itlog, pn)
        star = star | {lg} if lg is not None else star
        s.log = base_log + ((('star', loopid, star),) if (star - {()}) else ())
        # forget facts about elements of finished iterations lazily (canon drops unreachable ones)
        self.gc(s)
        return s, star

    def contains(self, big, small):
        if big == small:
            return True
        return isinstance(big, tuple) and any(self.contains(x, small) for x in big if isinstance(x, tuple))

    def delta(self, o, v):
        if o[0] == 'c' and v[0] == 'c':
            return v[1] - o[1]
        if v[0] == 't' and v[1] in '+-' and v[2] == o and v[3][0] == 'c':
            return v[3][1] if v[1] == '+' else -v[3][1]
        return '?'

    def gc(self, st):
        """drop facts about value numbers that nothing refers to any more"""
        live = set()

        def mark(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'tmp':
                    live.add(v)
                    return
                if len(v) == 3 and v[0] == 'a' and isinstance(v[1], int):
                    live.add(v)
                    return
                if len(v) >= 3 and v[0] == 'o' and isinstance(v[1], int):
                    live.add(v)
                    return
                for x in v:
                    mark(x)
            elif isinstance(v, frozenset):
                for x in v:
                    mark(x)
        for k, v in st.store.items():
            if k[0] in ('v', 'g', 'sl', 'argloc') or (k[0] == 'fld' and k[1][0] == 'o' and k[1][1] == 0) or k[0] == 'fld':
                mark(v)
        mark(st.log)
        mark(st.locks)
        mark(st.temps)
        mark(st.exc)

        for k, v in st.store.items():
            if k[0] == 'tmp' and k in live:
                mark(v)

        def ok(t):
            if isinstance(t, tuple):
                if len(t) == 2 and t[0] == 'tmp':
                    return t in live
                if len(t) == 3 and t[0] == 'a' and isinstance(t[1], int):
                    return t[1] == 0 or t in live
                if len(t) >= 3 and t[0] == 'o' and isinstance(t[1], int):
                    return t[1] == 0 or t in live
                return all(ok(x) for x in t if isinstance(x, (tuple, frozenset)))
            if isinstance(t, frozenset):
                return all(ok(x) for x in t if isinstance(x, (tuple, frozenset)))
            return True
        for t in [t for t in st.facts if not ok(t)]:
            del st.facts[t]
        for k in [k for k in st.rels if not (ok(k[0]) and ok(k[1]))]:
            del st.rels[k]
        if any(not ok(x) for x in st.foralls):
            st.foralls = type(st.foralls)(x for x in st.foralls if ok(x))
        for k in [k for k in st.store if k[0] in ('fld', 'copyof', 'dead', 'deleted', 'contents', 'tmp', 'elem', 'ctorargs') and not ok(k)]:
            del st.store[k]

    def abstract_iter(self, st, itlog, n0):
        """iteration log with iteration-local value numbers renamed, and facts about them attached"""
        ren = {}

        def local(v):
            return isinstance(v, tuple) and len(v) >= 3 and v[0] in ('a', 'o') and isinstance(v[1], int) and v[1] > n0

        def c(v):
            if isinstance(v, tuple):
                if len(v) >= 3 and v[0] == 't' and v[1] == 'elem':
                    # every element visited by the loop is generic
                    if v not in ren:
                        ren[v] = ('x', len(ren), 'elem', c(v[2]))
                    return ren[v]
                if local(v):
                    if v not in ren:
                        ren[v] = ('x', len(ren), v[2])
                    return ren[v]
                return tuple(c(x) for x in v)
            if isinstance(v, frozenset):
                return frozenset(c(x) for x in v)
            return v

        def haslocal(v):
            if isinstance(v, tuple):
                if v in ren:
                    return True
                return any(haslocal(x) for x in v if isinstance(x, tuple))
            return False
        evs = tuple(c(e) for e in itlog)
        logged = set(ren)

        def stale(v):
            """speaks of elements or values of earlier iterations, which this iteration's events do not mention"""
            if not isinstance(v, tuple) or v in logged:
                return False
            if local(v) or len(v) >= 3 and v[0] == 't' and v[1] == 'elem':
                return True
            return any(stale(x) for x in v if isinstance(x, tuple))
        fs = []
        for t, f in st.facts.items():
            if haslocal(t) and not stale(t) and not (t[0] == 't' and t[1] in ('more',)):
                fs.append(('fact', c(t), f[0], frozenset(c(x) for x in f[1])))
        for (a, b), s in st.rels.items():
            if (haslocal(a) or haslocal(b)) and not stale(a) and not stale(b):
                fs.append(('rel', c(a), c(b), frozenset(s)))
        fs.sort(key=repr)
        return evs + tuple(fs)

    def s_rfor(self, s, st, fr):
        out = []
        pre = self.exec(s['init'], st, fr) if 'init' in s else [(st, 'next', None)]
        for s0, c0, v0 in pre:
            if c0 != 'next':
                out.append((s0, c0, v0))
                continue
            for s1, loc in self.lv(s['r'], s0, fr):
                if isinstance(loc, Exc):
                    out.append((s1, 'exc', loc))
                    continue
                val = self.read(s1, loc, s['r'].get('t', ''))
                out += self.iterate(s, s1, fr, loc, val)
        return self.mergec(out)

    def elems_known(self, val):
        if val[0] == 'seq':
            return list(val[1])
        if val[0] == 'map':
            return [('tup', kv) for kv in val[1]]
        if val[0] == 'set':
            return [k for k, _ in val[1]]
        if val[0] == 'c' and isinstance(val[1], str):
            return [C(ord(ch)) for ch in val[1]]
        return []

    def iterate(self, s, st, fr, loc, val):
        """range-for over a container value"""
        d = s['v']
        isref = d['t'].strip().endswith('&')
        out = []
        if val[0] not in ('seq', 'map', 'set', 'c'):
            val = self.opaque_of_type(val, self.ttype.get(val, s['r'].get('t', '') or 'std::vector<int>'))
            if val[0] not in ('seq', 'map', 'set'):
                mid = val
                val = ('seq', (), mid, ())
        mid = val[2] if val[0] in ('seq', 'map', 'set') else None
        states = [(st, 'next', None)]

        def bind(s1, ev, i=None, where='pre'):
            l = ('v', fr.fid, d['id'])
            if isref and where == 'pre' and val[0] == 'seq' and i is not None and ev[0] not in ('o', 'a', 't'):
                s1.store[l] = ('alias', ('elemat', loc, i))
            elif isref and val[0] == 'map':
                tmp = ('tmp', self.tick())
                s1.store[tmp] = ev
                if ev[0] == 'tup':
                    s1.store[l] = ('alias', tmp)
                else:
                    s1.store[l] = ev
            else:
                s1.store[l] = ev if isref else self.copyval(s1, ev, d['t'])
            if 'binds' in d:
                for j, b in enumerate(d['binds']):
                    if ev[0] == 'tup' or classify(d['t']) == 'tup':
                        s1.store[('v', fr.fid, b['id'])] = ('alias', ('part', l, j))
                    else:
                        fl = self.p.fields(strip_t(d['t']))
                        if j < len(fl):
                            s1.store[('v', fr.fid, b['id'])] = ('alias', ('fld', ev, fl[j]['n']))

        def run_known(states, items, where):
            for i, ev in enumerate(items):
                nxt = []
                for s1, c, v in states:
                    if c != 'next':
                        nxt.append((s1, c, v))
                        continue
                    self.ev(s1, 'iter', ('known', i), ev)
                    bind(s1, ev, i, where)
                    for s2, c2, v2 in self.exec(s['b'], s1, fr):
                        for s3, c3, v3 in self.leave_scope(s2, c2, v2, [d] if not isref else [], fr):
                            if c3 == 'cont':
                                c3 = 'next'
                            if c3 == 'brk':
                                c3 = 'broke'
                            nxt.append((s3, c3, v3))
                states = self.mergec(nxt)
            return states
        states = run_known(states, self.elems_known(val), 'pre')
        if mid is not None:
            nxt = []
            for s1, c, v in states:
                if c != 'next':
                    nxt.append((s1, c, v))
                    continue
                nxt += self.iter_mid(s, s1, fr, mid, bind, d, isref)
            states = nxt
        if val[0] == 'seq' and val[3]:
            states = run_known(states, list(val[3]), 'suf')
        for s1, c, v in states:
            out.append((s1, 'next' if c == 'broke' else c, v))
        return out

    def tick(self):
        self.n += 1
        return self.n

    def iter_mid(self, s, st, fr, mid, bind, d, isref):
        out = []
        loopid = (fr.file, s['l'])
        base_log = st.log
        work = [(st, 0, None, frozenset(), C(0))]
        seen = set()
        count = 0
        nbase = self.n
        while work:
            s1, it, prev, star, pos = work.pop()
            count += 1
            if count > self.cfg.max_loop:
                raise TooComplex('loop at %s:%s does not converge' % (short(fr.file), s['l']))
            if it > 0:
                s1.store.pop(('v', fr.fid, d['id']), None)
                for b in d.get('binds', []):
                    s1.store.pop(('v', fr.fid, b['id']), None)
                s1, star = self.close_iter(s1, base_log, star, prev, it, loopid)
            key = self.canon(s1, ('h', it > 0))
            if key in seen:
                continue
            seen.add(key)
            head = (dict(s1.store), nbase)
            if it > 0:
                pos = self.fresh('pos', 'unsigned long')
            for s2, more in self.more(s1, mid, pos):
                if not more:
                    out.append((s2, 'next', None))
                    continue
                e = self.elem(mid, pos)
                bind(s2, e)
                for s3, c, v in self.exec(s['b'], s2, fr):
                    for s4, c4, v4 in self.leave_scope(s3, c, v, [d] if not isref else [], fr):
                        if c4 in ('next', 'cont'):
                            work.append((s4, it + 1, head, star, None))
                        elif c4 == 'brk':
                            out.append((s4, 'broke', None))
                        else:
                            out.append((s4, c4, v4))
        return out

    # ------------------------------------------------------------------ lvalues
    def lv(self, e, st, fr):
        k = e['k']
        if k == 'var':
            return [(st, self.varloc(e, st, fr))]
        if k == 'mem':
            return self.lv_mem(e, st, fr)
        if k == 'un' and e['op'] == '*':
            out = []
            for s, v in self.eval(e['e'], st, fr):
                if isinstance(v, Exc):
                    out.append((s, v))
                else:
                    out += self.deref(s, v, e, fr)
            return out
        if k == 'un' and e['op'] in ('++', '--'):
            out = []
            for s, v in self.eval(e, st, fr):
                out.append((s, v))
            r = []
            for s, v in out:
                if isinstance(v, Exc):
                    r.append((s, v))
                else:
                    r += self.lv(e['e'], s, fr)
            return r
        if k == 'sub':
            out = []
            for s, l in self.lv(e['b'], st, fr):
                if isinstance(l, Exc):
                    out.append((s, l))
                    continue
                for s2, i in self.eval(e['i'], s, fr):
                    if isinstance(i, Exc):
                        out.append((s2, i))
                    else:
                        out += self.index_loc(s2, l, i, e)
            return out
        if k == 'bin' and e['op'] in ('=', '+=', '-=', '|=', '&=', '*='):
            out = []
            for s, v in self.eval(e, st, fr):
                if isinstance(v, Exc):
                    out.append((s, v))
                else:
                    out += self.lv(e['lhs'], s, fr)
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for s, v in self.eval(e['lhs'], st, fr):
                out += [(s, v)] if isinstance(v, Exc) else self.lv(e['rhs'], s, fr)
            return out
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], st, fr):
                if isinstance(b, Exc):
                    out.append((s, b))
                else:
                    out += self.lv(e['x'] if b else e['y'], s, fr)
            return out
        if k == 'cast' and e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'Dynamic'):
            return self.lv(e['e'], st, fr)
        out = []
        for s, v in self.eval(e, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
            elif v[0] == 'ref' and (classify(e.get('t', '')) != 'ptr' or v[1][0] == 'elemat' or e.get('rt', '').strip().endswith('&')):
                out.append((s, self.canon_loc(s, v[1])))
            elif v[0] == 'itref':
                out.append((s, v[1]))
            elif v[0] in ('o', 'a', 't') and classify(e.get('t', '')) in ('cls',):
                out.append((s, ('self', v)))
            else:
                l = ('tmp', self.tick())
                s.store[l] = v
                out.append((s, l))
        return out

    def varloc(self, e, st, fr):
        if 'g' in e:
            loc = ('g', e['gk'])
            if loc not in st.store:
                v = self.global_value(st, e)
                st.store[loc] = v
            return loc
        loc = ('v', fr.fid, e['id'])
        loc = self.canon_loc(st, loc)
        v = st.store.get(loc)
        if v is not None and classify(e.get('t', '')) == 'cls' and v[0] in ('o', 'a', 't') and not e.get('t', '').endswith('*'):
            if not self.p.enums.get(strip_t(e.get('t', ''))):
                return loc
        return loc

    def global_value(self, st, e):
        gk = e['gk']
        if gk in self.globcache:
            return self.globcache[gk]
        g = self.p.globals.get(gk)
        t = g['t'] if g else e.get('t', '')
        v = None
        if g and g.get('init') and ('const' in t or classify(t) in ('str', 'seq', 'map', 'set')):
            try:
                r = self.init_value(g['init'], t, St(), Fr(0, None, None, 0, g['n'], g['file']), g['n'])
                if len(r) == 1 and not isinstance(r[0][1], Exc):
                    v = r[0][1]
                    if v[0] == 'o':
                        v = None
            except TooComplex:
                v = None
        if v is None and e['g'].endswith('basic_string::npos'):
            v = C(2 ** 64 - 1)
        if v is None:
            v = self.opaque_of_type(T('global', e['g']), t)
        self.globcache[gk] = v
        return v

    def lv_mem(self, e, st, fr):
        out = []
        b = e['b']
        for s, v in self.eval(b, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            if v[0] == 'ref':
                # pointer to / reference to a value held in a location
                l = self.canon_loc(s, v[1])
                v2 = self.read(s, l, b.get('t', ''))
                if v2[0] in ('tup',) or e['f'] in ('first', 'second') and e.get('cls', '').startswith('std::pair'):
                    out.append((s, ('part', l, 0 if e['f'] == 'first' else 1)))
                    continue
                v = v2
            if e['f'] in ('first', 'second') and (v[0] == 'tup' or e.get('cls', '').startswith('std::pair')):
                if v[0] == 'itref':
                    l = v[1]
                else:
                    l = None
                    if b['k'] in ('var', 'mem') and not e.get('arrow'):
                        r = self.lv(b, s, fr)
                        if len(r) == 1 and not isinstance(r[0][1], Exc):
                            s, l = r[0]
                    if l is None:
                        l = ('tmp', self.tick())
                        s.store[l] = v
                out.append((s, ('part', l, 0 if e['f'] == 'first' else 1)))
                continue
            if v[0] == 'itref':
                v = self.read(s, v[1])
            v = self.norm(s, v)
            if v == NULL:
                out.append((s, self.ub(s, fr, e, 'null dereference')))
                continue
            loc = ('fld', v, e['f'])
            self.record_access(s, fr, e, v, 'r')
            if loc not in s.store:
                self.read(s, loc, e['t'])
            out.append((s, self.canon_loc(s, loc)))
        return out

    def record_access(self, st, fr, e, base, mode):
        self.accesses.add((e.get('cls', ''), e['f'], mode, tuple(sorted(map(repr, st.locks))), short(fr.file), e['l'], fr.name,
                           base[0] == 'o' and base[1] == 0))

    def ub(self, st, fr, e, what):
        self.ev(st, 'ub', what, short(fr.file), e.get('l'))
        return Exc(('ub', what, short(fr.file), e.get('l')), '!ub')

    def deref(self, st, v, e, fr):
        v = self.norm(st, v)
        if v == NULL:
            return [(st, self.ub(st, fr, e, 'null dereference'))]
        if v[0] == 'ref':
            return [(st, self.canon_loc(st, v[1]))]
        if v[0] == 'o' and st.store.get(('deleted', v)) and st.store.get(('deleted', v)) == TRUE and not (fr.this == v):
            return [(st, self.ub(st, fr, e, 'use of a deleted object'))]
        if v[0] == 'it':
            return self.it_deref(st, v, e, fr)
        if v[0] == 'some':
            l = ('tmp', self.tick())
            st.store[l] = v[1]
            return [(st, l)]
        t = self.ttype.get(v, '')
        if v[0] in ('o', 'lam') or classify(e.get('t', '')) == 'cls':
            return [(st, ('self', v))]
        # pointer to non-class value: a location named after the pointer
        l = ('deref', v)
        if l not in st.store:
            st.store[l] = self.opaque_of_type(T('deref', v), e.get('t', '') or 'int')
        return [(st, l)]

    def index_loc(self, st, loc, i, e):
        loc = self.canon_loc(st, loc)
        val = self.read(st, loc, e.get('bt', ''))
        i = self.norm(st, i)
        i = self.unint(i)
        i = self.norm(st, i)
        n = self.numval(i)
        if val[0] == 'seq':
            if n is not None:
                if n < len(val[1]):
                    return [(st, ('elemat', loc, n))] if val[1][n][0] not in ('o', 'a', 't') or classify(e.get('t', '')) != 'cls' \
                        else [(st, ('self', val[1][n]))]
                if val[2] is None:
                    j = n - len(val[1])
                    if j < len(val[3]):
                        l = ('tmp', self.tick())
                        st.store[l] = val[3][j]
                        return [(st, l)]
                    return [(st, self.ub(st, Fr(0, None, None, 0, '', ''), e, 'index out of range'))]
                pos = C(n - len(val[1]))
                el = self.elem(val[2], pos)
            elif val[2] is None and len(val[1]) > 0:
                # opaque index into a known table: enumerate
                if self.enum_domain(i) is not None:
                    out = []
                    for s in self.split_enum(st, i):
                        out += self.index_loc(s, loc, i, e)
                    return out
                out = []
                rest = st
                for j in range(len(val[1])):
                    r = self.decide_eq(rest.copy(), i, C(j))
                    for s, b in r:
                        if b:
                            out.append((s, ('elemat', loc, j)))
                return out
            elif val[2] is None:
                return [(st, self.ub(st, Fr(0, None, None, 0, '', ''), e, 'index out of range'))]
            else:
                el = self.elem(val[2], i)
            if el[0] in 'at' and classify(self.ttype.get(el, '')) == 'cls' and not self.p.enums.get(strip_t(self.ttype.get(el, ''))):
                return [(st, ('self', el))]
            l = ('elem', loc, el)
            if l not in st.store:
                st.store[l] = self.opaque_of_type(el, self.ttype.get(el, e.get('t', 'int')))
            return [(st, l)]
        l = ('tmp', self.tick())
        st.store[l] = self.opaque_of_type(T('at', val, i), e.get('t', 'int'))
        return [(st, l)]

    # ------------------------------------------------------------------ expressions
    # eval -> list of (st, value | Exc)
    def eval(self, e, st, fr):
        if e is None:
            return [(st, C(None))]
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            self.taint(st, 'expression ' + e['k'])
            return [(st, self.fresh('expr', e.get('t', '')))]
        return m(e, st, fr)

    def e_int(self, e, st, fr):
        return [(st, C(int(e['v'])))]

    def e_bool(self, e, st, fr):
        return [(st, C(bool(e['v'])))]

    def e_float(self, e, st, fr):
        return [(st, C(float(e['v'])))]

    def e_str(self, e, st, fr):
        return [(st, C(e['v']))]

    def e_null(self, e, st, fr):
        return [(st, NULL)]

    def e_zero(self, e, st, fr):
        v = self.default(e.get('t', ''), 'zero')
        k = classify(e.get('t', ''))
        if k in ('int', 'bool', 'float'):
            v = {'int': C(0), 'bool': FALSE, 'float': C(0.0)}[k]
        elif k in ('ptr', 'fptr'):
            v = NULL
        elif v is None:
            v = self.newobj(strip_t(e.get('t', '')))
            self.default_fields(st, v, strip_t(e.get('t', '')))
        return [(st, v)]

    def e_this(self, e, st, fr):
        return [(st, fr.this if fr.this is not None else self.fresh('this', e.get('t', '')))]

    def e_enumc(self, e, st, fr):
        return [(st, ('e', e['n'], int(e['v'])))]

    def e_var(self, e, st, fr):
        loc = self.varloc(e, st, fr)
        v = self.read(st, loc, e.get('t', ''))
        return [(st, v)]

    def e_mem(self, e, st, fr):
        out = []
        for s, l in self.lv_mem(e, st, fr):
            if isinstance(l, Exc):
                out.append((s, l))
            else:
                out.append((s, self.read(s, l, e.get('t', ''))))
        return out

    def e_fref(self, e, st, fr):
        if 'b' in e and e['b'] is not None:
            return [(s, v if isinstance(v, Exc) else ('fn', e['f'], v)) for s, v in self.eval(e['b'], st, fr)]
        return [(st, ('fn', e['f'], None))]

    def e_ilist(self, e, st, fr):
        return self.ilist_value(e, e.get('t', ''), st, fr)

    def e_unk(self, e, st, fr):
        self.taint(st, 'expression ' + e.get('c', '?'))
        return [(st, self.fresh('expr', e.get('t', '')))]

    def e_lambda(self, e, st, fr):
        key = id(e)
        self.lams[key] = e
        states = [(st, (), fr.this if any(c.get('this') for c in e['caps']) else None)]
        for c in e['caps']:
            nxt = []
            for s, caps, this in states:
                if isinstance(caps, Exc) or c.get('this'):
                    nxt.append((s, caps, this))
                elif c.get('ref'):
                    init = c.get('init')
                    if init is not None and init['k'] != 'var':
                        for s2, l in self.lv(init, s, fr):
                            nxt.append((s2, caps + ((c['id'], 'ref', self.canon_loc(s2, l)),), this))
                        continue
                    loc = self.canon_loc(s, ('v', fr.fid, init['id'] if init else c['id']))
                    if loc[0] == 'self':
                        nxt.append((s, caps + ((c['id'], 'val', loc[1]),), this))
                    else:
                        nxt.append((s, caps + ((c['id'], 'ref', loc),), this))
                elif c.get('init') is not None:
                    for s2, v in self.eval(c['init'], s, fr):
                        if isinstance(v, Exc):
                            nxt.append((s2, v, this))
                        else:
                            if v[0] == 'ref' and classify(c['init'].get('t', '')) != 'ptr':
                                v = self.read(s2, v[1])
                            nxt.append((s2, caps + ((c['id'], 'val', v),), this))
                elif 'id' in c:
                    nxt.append((s, caps + ((c['id'], 'val', self.read(s, ('v', fr.fid, c['id']))),), this))
                else:
                    nxt.append((s, caps, this))
            states = nxt
        return [(s, caps if isinstance(caps, Exc) else ('lam', key, this if this is not None else NULL, caps))
                for s, caps, this in states]

    def e_throw(self, e, st, fr):
        if 'e' not in e or e['e'] is None:
            if st.exc:
                v, c = st.exc[-1]
                return [(st, Exc(v, c))]
            return [(st, Exc(NULL, '?'))]
        out = []
        for s, v in self.eval(e['e'], st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                cls = v[2] if v[0] == 'o' else strip_t(e['e'].get('t', '?'))
                s.temps = tuple(x for x in s.temps if x != v)
                self.ev(s, 'throw', cls)
                out.append((s, Exc(v, cls)))
        return out

    def e_cond(self, e, st, fr):
        out = []
        for s, b in self.cond(e['c'], st, fr):
            if isinstance(b, Exc):
                out.append((s, b))
            else:
                for s2, v in self.eval(e['x'] if b else e['y'], s, fr):
                    if not isinstance(v, Exc) and v[0] == 'ref' and classify(e.get('t', '')) != 'ptr':
                        v = self.read(s2, v[1], e.get('t', ''))
                    out.append((s2, v))
        return out

    def e_sub(self, e, st, fr):
        out = []
        for s, l in self.lv(e, st, fr):
            out.append((s, l if isinstance(l, Exc) else self.read(s, l, e.get('t', ''))))
        return out

    def e_new(self, e, st, fr):
        out = []
        if e.get('arr'):
            self.taint(st, 'array new')
            return [(st, self.fresh('new', e.get('t', '')))]
        if e.get('e') is None:
            o = self.newobj(e['nt'])
            self.default_fields(st, o, e['nt'])
            return [(st, o)]
        for s, v in self.eval(e['e'], st, fr):
            if not isinstance(v, Exc):
                s.temps = tuple(x for x in s.temps if x != v)
                self.ev(s, 'new', e['nt'], v)
            out.append((s, v))
        return out

    def e_delete(self, e, st, fr):
        out = []
        for s, v in self.eval(e['e'], st, fr):
            if not isinstance(v, Exc):
                self.ev(s, 'delete', v)
                v = self.norm(s, v)
                if v[0] == 'o' and v[2] in self.p.records:
                    if s.store.get(('deleted', v)):
                        out.append((s, self.ub(s, fr, e, 'deleted twice')))
                        continue
                    s.store[('deleted', v)] = TRUE
                    for s2, exc in self.destroy_obj(s, v, v[2]):
                        out.append((s2, exc or C(None)))
                    continue
                v = C(None)
            out.append((s, v))
        return out

    def e_load(self, e, st, fr):
        """the value of a pointer that a call designates"""
        out = []
        for s, v in self.eval(e['e'], st, fr):
            if not isinstance(v, Exc) and v[0] in ('ref', 'itref'):
                v = self.read(s, v[1], e.get('t', ''))
            out.append((s, v))
        return out

    def e_cast(self, e, st, fr):
        ck = e['ck']
        out = []
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'BitCast', 'ToVoid', 'NullToPointer',
                  'NullToMemberPointer', 'LValueBitCast', 'FloatingCast', 'UserDefinedConversion',
                  'ConstructorConversion', 'BuiltinFnToFnPtr', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'LValueToRValue'):
            r = self.eval(e['e'], st, fr)
            if ck in ('NullToPointer', 'NullToMemberPointer'):
                return [(s, v if isinstance(v, Exc) else NULL) for s, v in r]
            if ck == 'FloatingCast':
                o2 = []
                for s, v in r:
                    if not isinstance(v, Exc) and v[0] == 'ref':
                        v = self.read(s, v[1], e['e'].get('t', ''))
                    if not isinstance(v, Exc):
                        self.typed(v, e.get('t', ''))
                    o2.append((s, v))
                return o2
            return r
        for s, v in self.eval(e['e'], st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            if v[0] == 'ref' and classify(e['e'].get('t', '')) != 'ptr':
                v = self.read(s, v[1], e['e'].get('t', ''))
            if ck == 'IntegralCast':
                out.append((s, self.int_cast(s, v, e['e'].get('t', ''), e.get('t', ''))))
            elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
                out.append((s, v if v[0] != 'c' else C(bool(v[1]))))
            elif ck == 'IntegralToFloating':
                if v[0] == 'c' and isinstance(v[1], (int, bool)):
                    out.append((s, C(float(v[1]))))
                else:
                    out.append((s, self.typed(T('tofloat', v), e.get('t', ''))))
            elif ck == 'FloatingToIntegral':
                if v[0] == 'c' and isinstance(v[1], float) and v[1] == v[1]:
                    out.append((s, C(int(v[1]))))
                else:
                    out.append((s, self.typed(T('toint', v), e.get('t', ''))))
            elif ck == 'Dynamic':
                out += self.dyn_cast(s, v, e)
            else:
                self.taint(s, 'cast ' + ck)
                out.append((s, self.typed(T('cast:' + ck, v), e.get('t', ''))))
        return out

    def int_cast(self, st, v, tf, tt):
        v = self.norm(st, v)
        ttn = strip_t(tt)
        en = self.p.enums.get(ttn)
        if v[0] == 'c':
            if en:
                for c in en['c']:
                    if int(c['v']) == v[1]:
                        return ('e', c['n'], int(c['v']))
                return v
            if isinstance(v[1], (int, bool)):
                bits = {'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64, 'unsigned char': 8,
                        'unsigned short': 16}.get(ttn)
                if bits and v[1] < 0:
                    return C(v[1] % (1 << bits))
            return v
        if v[0] == 'e':
            if en:
                return v if v[1].rsplit('::', 1)[0] == ttn else self.to_enum_t(ttn, v[2])
            return C(v[2])
        if en and not self.p.enums.get(strip_t(tf)):
            if v[0] == 't' and v[1] == 'int' and strip_t(self.ttype.get(v[2], '')) == ttn:
                return v[2]
            return self.typed(T('enum', v), ttn)
        if self.p.enums.get(strip_t(tf)) and not en:
            return self.typed(T('int', v), ttn)
        if strip_t(tf) == 'bool' or v[0] == 't' and v[1] in ('eq', 'cmp', 'not', 'and', 'or', 'empty'):
            return v
        return v    # same value number; truncation is not modelled

    def to_enum_t(self, ttn, n):
        for c in self.p.enums[ttn]['c']:
            if int(c['v']) == n:
                return ('e', c['n'], n)
        return C(n)

    def dyn_cast(self, st, v, e):
        v = self.norm(st, v)
        if v == NULL:
            return [(st, v)]
        t = strip_t(e.get('t', ''))
        isptr = t.endswith('*')
        cls = strip_t(t[:-1]) if isptr else t
        if v[0] == 'o':
            return [(st, v if self.p.is_a(v[2], cls) else NULL)]
        key = T('isa', v, cls)
        self.typed(key, 'bool')
        out = []
        for s, b in self.decide(st, key):
            out.append((s, v if b else NULL))
        return out

    def e_un(self, e, st, fr):
        op = e['op']
        out = []
        if op == '!':
            return [(s, b if isinstance(b, Exc) else C(not b)) for s, b in self.cond(e['e'], st, fr)] \
                if not self.pure_bool(e['e']) else self.neg(e, st, fr)
        if op == '&':
            x = e['e']
            if x['k'] == 'fref':
                return self.eval(x, st, fr)
            for s, l in self.lv(x, st, fr):
                if isinstance(l, Exc):
                    out.append((s, l))
                elif l[0] == 'self':
                    out.append((s, l[1]))
                else:
                    t = x.get('t', '')
                    v = s.store.get(l)
                    if classify(t) == 'cls' and v is not None and v[0] in ('o', 'a', 't') and not self.p.enums.get(strip_t(t)):
                        out.append((s, v))
                    else:
                        out.append((s, ('ref', l)))
            return out
        if op == '*':
            for s, l in self.lv(e, st, fr):
                if isinstance(l, Exc):
                    out.append((s, l))
                else:
                    out.append((s, self.read(s, l, e.get('t', ''))))
            return out
        if op in ('++', '--', 'post++', 'post--'):
            for s, l in self.lv(e['e'], st, fr):
                if isinstance(l, Exc):
                    out.append((s, l))
                    continue
                v = self.read(s, l, e.get('t', ''))
                nv = self.arith(s, '+' if '++' in op else '-', v, C(1), e.get('t', ''))
                self.mark_write(s, fr, e['e'])
                self.write(s, l, nv)
                out.append((s, v if op.startswith('post') else nv))
            return out
        for s, v in self.eval(e['e'], st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            if v[0] == 'ref':
                v = self.read(s, v[1], e['e'].get('t', ''))
            if op == '-':
                out.append((s, C(-v[1]) if v[0] == 'c' and isinstance(v[1], (int, float)) else self.typed(T('neg', v), e.get('t', ''))))
            elif op == '+':
                out.append((s, v))
            else:
                out.append((s, self.typed(T('un' + op, v), e.get('t', ''))))
        return out

    def pure_bool(self, e):
        return False

    def neg(self, e, st, fr):
        return []

    def mark_write(self, st, fr, e):
        x = e
        while x['k'] in ('sub', 'cast') or x['k'] == 'un' and x['op'] == '*' or x['k'] == 'mem' and x.get('cls', '').startswith('std::'):
            x = x.get('b') or x.get('e')
        if x['k'] == 'mem':
            # base value number: evaluate cheaply for `this`
            base = fr.this if x['b']['k'] == 'this' else ('?',)
            self.record_access(st, fr, x, base or ('?',), 'w')

    CMP = {'==': frozenset('='), '!=': None, '<': frozenset('<'), '<=': frozenset('<='), '>': frozenset('>'), '>=': frozenset('>=')}

    def e_bin(self, e, st, fr):
        op = e['op']
        out = []
        if op in ('&&', '||'):
            return [(s, b if isinstance(b, Exc) else C(b)) for s, b in self.cond(e, st, fr)]
        if op == ',':
            for s, v in self.eval(e['lhs'], st, fr):
                out += [(s, v)] if isinstance(v, Exc) else self.eval(e['rhs'], s, fr)
            return out
        if op == '=':
            for s, v in self.eval(e['rhs'], st, fr):
                if isinstance(v, Exc):
                    out.append((s, v))
                    continue
                if v[0] == 'ref' and classify(e['lhs'].get('t', '')) != 'ptr':
                    v = self.read(s, v[1], e['rhs'].get('t', ''))
                for s2, l in self.lv(e['lhs'], s, fr):
                    if isinstance(l, Exc):
                        out.append((s2, l))
                        continue
                    self.mark_write(s2, fr, e['lhs'])
                    self.write(s2, l, v)
                    out.append((s2, v))
            return out
        if op.endswith('=') and op not in self.CMP:
            for s, v in self.eval(e['rhs'], st, fr):
                if isinstance(v, Exc):
                    out.append((s, v))
                    continue
                if v[0] == 'ref':
                    v = self.read(s, v[1], e['rhs'].get('t', ''))
                for s2, l in self.lv(e['lhs'], s, fr):
                    if isinstance(l, Exc):
                        out.append((s2, l))
                        continue
                    o = self.read(s2, l, e['lhs'].get('t', ''))
                    nv = self.arith(s2, op[:-1], o, v, e.get('t', ''))
                    self.mark_write(s2, fr, e['lhs'])
                    self.write(s2, l, nv)
                    out.append((s2, nv))
            return out
        for s, a in self.eval(e['lhs'], st, fr):
            if isinstance(a, Exc):
                out.append((s, a))
                continue
            if a[0] == 'ref' and classify(e['lhs'].get('t', '')) != 'ptr':
                a = self.read(s, a[1], e['lhs'].get('t', ''))
            for s2, b in self.eval(e['rhs'], s, fr):
                if isinstance(b, Exc):
                    out.append((s2, b))
                    continue
                if b[0] == 'ref' and classify(e['rhs'].get('t', '')) != 'ptr':
                    b = self.read(s2, b[1], e['rhs'].get('t', ''))
                out.append((s2, self.binop(s2, op, a, b, e)))
        return out

    def binop(self, st, op, a, b, e):
        if op in ('==', '!=') or op in self.CMP:
            na, nb = self.norm(st, a), self.norm(st, b)
            if na[0] in 'ce' and nb[0] in 'ce' and op in ('==', '!='):
                if na == nb or isinstance(na[-1], (int, float)) and isinstance(nb[-1], (int, float)):
                    return C((na[-1] == nb[-1]) == (op == '=='))
            elif na[0] == nb[0] == 'c' and isinstance(na[1], (int, float)) and isinstance(nb[1], (int, float)):
                return C({'<': na[1] < nb[1], '>': na[1] > nb[1], '<=': na[1] <= nb[1], '>=': na[1] >= nb[1]}.get(op, None)) if op in ('<', '>', '<=', '>=') else T('cmp', self.CMP[op], a, b)
        if op in ('==', '!='):
            t = T('eq', a, b)
            return t if op == '==' else T('not', t)
        if op in self.CMP:
            return T('cmp', self.CMP[op], a, b)
        return self.arith(st, op, a, b, e.get('t', ''))

    def arith(self, st, op, a, b, typ):
        a, b = self.norm(st, a), self.norm(st, b)
        na, nb = self.numval(a), self.numval(b)
        if na is not None and nb is not None:
            try:
                if op == '+':
                    r = na + nb
                elif op == '-':
                    r = na - nb
                elif op == '*':
                    r = na * nb
                elif op == '&':
                    r = na & nb
                elif op == '|':
                    r = na | nb
                elif op == '^':
                    r = na ^ nb
                elif op == '<<':
                    r = na << nb
                elif op == '/' and nb:
                    r = na / nb if isinstance(na, float) or isinstance(nb, float) else int(na / nb)
                elif op == '%' and nb:
                    r = na % nb
                else:
                    raise ValueError
                if isinstance(r, int) and not isinstance(r, bool) and r < 0 and strip_t(typ).startswith('unsigned'):
                    r %= 1 << (64 if 'long' in typ else 32)
                return C(r)
            except (ValueError, TypeError, OverflowError):
                pass
        if op == '+' and (a[0] == 'c' and isinstance(a[1], str) or b[0] == 'c' and isinstance(b[1], str) or classify(typ) == 'str'):
            return self.cat(a, b)
        if op in '+-' and nb is not None and a[0] == 't' and a[1] in '+-' and self.numval(a[3]) is not None:
            d = (a[3][1] if a[1] == '+' else -a[3][1]) + (nb if op == '+' else -nb)
            if d == 0:
                return a[2]
            return self.typed(T('+', a[2], C(d)) if d > 0 else T('-', a[2], C(-d)), typ)
        if op in '&|' and strip_t(typ) in ('bool', 'int') and a[0] == 't' and a[1] in ('eq', 'cmp', 'not', 'and', 'or', 'empty'):
            return T('and' if op == '&' else 'or', a, b)
        if op == '^' and all(self.is_bool(x) for x in (a, b)):
            return T('not', T('eq', a, b))
        return self.typed(T(op, a, b), strip_t(typ))

    def is_bool(self, v):
        return v[0] == 'c' and isinstance(v[1], bool) or v[0] == 't' and v[1] in ('eq', 'cmp', 'not', 'and', 'or', 'empty') or self.ttype.get(v) == 'bool'

    def cat(self, a, b):
        pa = a[2:] if a[0] == 't' and a[1] == 'cat' else (a,)
        pb = b[2:] if b[0] == 't' and b[1] == 'cat' else (b,)
        parts = []
        for x in pa + pb:
            if x[0] == 'c' and isinstance(x[1], int):
                x = C(chr(x[1])) if 0 <= x[1] < 0x110000 else x
            if x == C(''):
                continue
            if parts and parts[-1][0] == 'c' and x[0] == 'c' and isinstance(parts[-1][1], str) and isinstance(x[1], str):
                parts[-1] = C(parts[-1][1] + x[1])
            else:
                parts.append(x)
        if not parts:
            return C('')
        if len(parts) == 1:
            return parts[0]
        return self.typed(('t', 'cat') + tuple(parts), 'std::basic_string<char>')

    # ------------------------------------------------------------------ construction
    def e_ctor(self, e, st, fr):
        cls = e['c']
        t = e.get('t', cls)
        k = classify(t)
        if cls.startswith('lambda@') or cls.startswith('(lambda'):
            return self.eval(e['a'][0], st, fr) if e['a'] else [(st, self.fresh('lambda'))]
        if k == 'lock':
            return self.make_lock(e, st, fr)
        if cls in self.p.records:
            return self.make_obj(e, st, fr)
        out = []
        if k in ('seq', 'map', 'set', 'str'):
            al = list(e['a'])
            while al and head_t(al[-1].get('t', '')) in ('std::allocator', 'std::less', 'std::hash', 'std::equal_to'):
                al.pop()
            if len(al) != len(e['a']):
                e = dict(e, a=al)
        for s, args in self.eval_args(e['a'], st, fr, None, raw=True):
            if isinstance(args, Exc):
                out.append((s, args))
                continue
            out += self.std_ctor(e, s, fr, k, cls, t, args)
        return out

    def make_lock(self, e, st, fr):
        out = []
        o0 = None
        if not e['a']:
            o = self.newobj('lock')
            st.store[('fld', o, 'owns')] = FALSE
            return [(st, o)]
        if e.get('move'):
            for s, v in self.eval(e['a'][0], st, fr):
                out.append((s, v))
            return out
        states = [(st, ())]
        for a in e['a']:
            nxt = []
            for s, acc in states:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                elif classify(a.get('t', '')) == 'mutex':
                    for s2, l in self.lv(a, s, fr):
                        nxt.append((s2, l if isinstance(l, Exc) else acc + (l,)))
                else:
                    nxt.append((s, acc + (('tag', strip_t(a.get('t', ''))),)))
            states = nxt
        for s, acc in states:
            if isinstance(acc, Exc):
                out.append((s, acc))
                continue
            o = self.newobj('lock')
            tags = [x[1] for x in acc if x[0] == 'tag']
            ms = [x for x in acc if x[0] != 'tag']
            m = ms[0] if ms else ('fld', self.fresh('mutex'), 'm')
            s.store[('fld', o, 'm')] = m
            if 'std::defer_lock_t' in tags:
                s.store[('fld', o, 'owns')] = FALSE
            elif 'std::adopt_lock_t' in tags:
                s.store[('fld', o, 'owns')] = TRUE
            else:
                for x in ms:
                    self.lock(s, x, fr, e)
                s.store[('fld', o, 'owns')] = TRUE
            s.temps = s.temps + (o,)
            out.append((s, o))
        return out

    def lock(self, st, m, fr=None, e=None):
        if m in st.locks:
            self.ev(st, 'deadlock', m)
        st.locks = st.locks + (m,)
        self.ev(st, 'lock', m)
        if st.relock:
            self.havoc_shared(st, m)

    def unlock(self, st, m):
        l = list(st.locks)
        if m in l:
            l.remove(m)
        else:
            self.ev(st, 'unlock-not-held', m)
        st.locks = tuple(l)
        st.relock = True
        self.ev(st, 'unlock', m)

    def havoc_shared(self, st, m):
        """another thread may have run while the mutex was free"""
        if m[0] != 'fld' or self.cfg.sequential:
            return
        base = m[1]
        for k in list(st.store):
            if k[0] == 'fld' and k[1] == base:
                v = st.store[k]
                if v[0] in ('seq', 'map', 'set'):
                    t = self.ttype.get(v[2]) if v[2] else None
                    if t is None:
                        f = self.p.field(base[2], k[2]) if base[0] == 'o' else None
                        t = f['t'] if f else ''
                    st.store[k] = self.opaque_of_type(self.fresh('shared:' + k[2], strip_t(t)), t)
        self.cfg_havoc(st, base)

    def cfg_havoc(self, st, base):
        pass

    def make_obj(self, e, st, fr):
        cls = e['c']
        fnc = self.p.funcs.get(e['f'])
        out = []
        hook = self.cfg.call_hook(self, st, fr, e, e['n'], None, None)
        if hook is not None:
            return hook
        if (e.get('copy') or e.get('move')) and (fnc is None or e.get('implicit') or 'body' not in fnc and not fnc.get('inits')):
            for s, v in self.eval(e['a'][0], st, fr):
                if isinstance(v, Exc):
                    out.append((s, v))
                    continue
                if v[0] == 'ref':
                    v = self.read(s, v[1], cls)
                if e.get('move') and v in s.temps:
                    out.append((s, v))
                    continue
                o = self.newobj(cls)
                self.copy_fields(s, o, v)
                s.store[('copyof', o)] = v
                if e.get('move'):
                    self.moved_from(s, v, cls)
                s.temps = s.temps + (o,)
                out.append((s, o))
            return out
        for s, args in self.eval_args(e['a'], st, fr, fnc):
            if isinstance(args, Exc):
                out.append((s, args))
                continue
            o = self.newobj(cls)
            if fnc is not None and ('body' in fnc or fnc.get('inits')):
                for s2, r in self.invoke(s, fnc, o, args, fr):
                    if isinstance(r, Exc):
                        out.append((s2, r))
                    else:
                        self.default_fields(s2, o, cls)
                        s2.temps = s2.temps + (o,)
                        out.append((s2, o))
            else:
                self.default_fields(s, o, cls)
                if args:
                    self.ev(s, 'ctor', cls, tuple(args))
                s.store[('ctorargs', o)] = ('tup', tuple(args))
                s.temps = s.temps + (o,)
                out.append((s, o))
        return out

    def moved_from(self, st, v, cls):
        for f in self.p.fields(cls):
            k = classify(f['t'])
            if k in ('smart',):
                st.store[('fld', v, f['n'])] = NULL
            elif k == 'seq':
                st.store[('fld', v, f['n'])] = ('seq', (), None, ())
            elif k == 'func':
                st.store[('fld', v, f['n'])] = self.fresh('movedfrom', f['t'])

    def std_ctor(self, e, st, fr, k, cls, t, args):
        """args: evaluated values (refs for containers)"""
        ts = strip_t(t)
        vals = [self.read(st, a[1]) if a[0] == 'ref' else a for a in args]
        at = [strip_t(a.get('t', '')) for a in e['a']]
        if k == 'str':
            if not vals:
                return [(st, C(''))]
            if len(vals) >= 1:
                if e.get('move') and args[0][0] == 'ref':
                    pass
                v = vals[0]
                if len(vals) >= 2 and classify(at[0]) in ('int',):
                    return [(st, self.typed(T('strfill', *vals[:2]), ts))]
                if classify(at[0]) == 'ptr' or classify(at[0]) == 'str' or v[0] == 'c':
                    return [(st, v if v[0] != 'a' or not self.ttype.get(v, '').endswith('*') else v)]
                return [(st, self.typed(T('str', *vals), ts))]
        if k in ('seq', 'map', 'set'):
            if not vals or at and at[0].startswith('std::allocator'):
                return [(st, ('seq', (), None, ()) if k == 'seq' else (k, (), None))]
            v = vals[0]
            if v[0] in ('seq', 'map', 'set') and (e.get('copy') or e.get('move') or classify(at[0]) == 'seq'):
                if k in ('map', 'set') and v[0] == 'seq':
                    ents = []
                    for x in v[1]:
                        kv = (x, NULL) if k == 'set' else (x[1] if x[0] == 'tup' else (self.part(st, x, 0), self.part(st, x, 1)))
                        if all(kk != kv[0] for kk, _ in ents):
                            ents.append((kv[0], kv[1]))
                    return [(st, (k, tuple(ents), v[2]))]
                if e.get('move') and args[0][0] == 'ref':
                    src = self.canon_loc(st, args[0][1])
                    if src[0] != 'tmp':
                        st.store[src] = ('seq', (), None, ()) if k == 'seq' else (k, (), None)
                return [(st, v)]
            if len(vals) >= 2 and vals[0][0] == 'it' and vals[1][0] == 'it':
                rng = self.range_value(st, vals[0], vals[1])
                if rng is not None:
                    if k == 'seq' and rng[0] == 'seq':
                        return [(st, rng)]
                    if k == 'set' and rng[0] == 'seq' and (not rng[1] or rng[2] is None):
                        ents = []
                        for x in rng[1]:
                            if x not in [y for y, _ in ents]:
                                ents.append((x, NULL))
                        return [(st, ('set', tuple(ents), rng[2]))]
            if k == 'seq' and classify(at[0]) == 'int':
                if vals[0][0] == 'c':
                    n = vals[0][1]
                    if 0 <= n <= 16 and len(vals) > 1 and not at[1].startswith('std::allocator'):
                        return [(st, ('seq', tuple([vals[1]] * n), None, ()))]
                self.taint(st, 'sized container')
                return [(st, self.opaque_of_type(self.fresh('sized', ts), ts))]
            return [(st, self.opaque_of_type(self.typed(T('cont', *vals), ts), ts))]
        if k in ('smart', 'func', 'opt'):
            if not vals or vals[0] == NULL:
                return [(st, NULL)]
            if e.get('move') and args[0][0] == 'ref':
                src = self.canon_loc(st, args[0][1])
                st.store[src] = NULL if k != 'func' or True else st.store[src]
            v = vals[0]
            if 'shared_ptr' in ts and at:
                if 'shared_ptr' not in at[0]:
                    if 'unique_ptr' in at[0] and args[0][0] == 'ref':
                        st.store[self.canon_loc(st, args[0][1])] = NULL
                    self.own(st, v, False)
                elif not e.get('move') and args[0][0] == 'ref':
                    self.own(st, v, True)
            st.temps = tuple(x for x in st.temps if x != v) if k in ('smart',) else st.temps
            if k == 'opt' and not e.get('copy') and not e.get('move') and v[0] != 'some' and classify(at[0]) != 'opt':
                v = ('some', v)
            return [(st, v)]
        if k == 'tup':
            if (e.get('copy') or e.get('move')) or (len(vals) == 1):
                v = vals[0]
                return [(st, v)]
            return [(st, ('tup', tuple(vals)))]
        if k == 'atomic':
            return [(st, vals[0] if vals else self.fresh('atomic', ts))]
        if k == 'async':
            if e.get('move') or e.get('copy'):
                if args[0][0] == 'ref':
                    src = self.canon_loc(st, args[0][1])
                    st.store[src] = NULL
                return [(st, vals[0])]
            if not vals:
                return [(st, NULL)]
        if 'iterator' in cls:
            return [(st, vals[0] if vals else self.fresh('iter', ts))]
        if cls in ('std::mutex', 'std::condition_variable', 'std::allocator', 'std::less', 'std::once_flag'):
            return [(st, self.fresh(cls, ts))]
        if (e.get('copy') or e.get('move')) and vals:
            return [(st, vals[0])]
        if cls.startswith('std::chrono'):
            if len(vals) == 1:
                return [(st, self.typed(T('dur', vals[0]), ts) if classify(at[0]) in ('int', 'float') else vals[0])]
        # opaque external class
        o = self.newobj(ts)
        st.store[('ctorargs', o)] = ('tup', tuple(vals))
        self.ev(st, 'extctor', cls, tuple(vals))
        res = [(st, o)]
        if self.cfg.may_throw('ctor:' + cls):
            s2 = st.copy()
            res.append((s2, Exc(self.fresh('exc'), '?')))
        return res

    # ------------------------------------------------------------------ calls
    def eval_args(self, nodes, st, fr, fnc, raw=False):
        """-> list of (st, [values] | Exc). Arguments bound to references of non-class type become ('ref', loc)."""
        states = [(st, [])]
        for i, a in enumerate(nodes):
            nxt = []
            want_ref = False
            if fnc is not None and i < len(fnc['params']):
                pt = fnc['params'][i]['t'].strip()
                want_ref = pt.endswith('&') and (classify(pt) != 'cls' or 'condition_variable' in pt)
                if pt.endswith('&') and classify(pt) == 'cls' and self.p.enums.get(strip_t(pt)):
                    want_ref = True
            elif fnc is None:
                want_ref = classify(a.get('t', '')) in ('seq', 'map', 'set', 'str', 'int', 'bool', 'float', 'smart', 'func', 'tup',
                                                        'atomic', 'mutex', 'async', 'opt') and \
                    (a['k'] in ('var', 'mem', 'sub') or a['k'] == 'call' or a['k'] == 'un' and a['op'] == '*' or
                     (a['k'] == 'ctor'))
                if self.p.enums.get(strip_t(a.get('t', ''))) and a['k'] in ('var', 'mem'):
                    want_ref = True
            for s, acc in states:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                if want_ref:
                    for s2, l in self.lv(a, s, fr):
                        if isinstance(l, Exc):
                            nxt.append((s2, l))
                        elif l[0] == 'self':
                            nxt.append((s2, acc + [l[1]]))
                        else:
                            nxt.append((s2, acc + [('ref', l)]))
                else:
                    for s2, v in self.eval(a, s, fr):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                        else:
                            if v[0] == 'ref' and classify(a.get('t', '')) not in ('ptr',) and fnc is not None:
                                v = self.read(s2, v[1], a.get('t', ''))
                            if v[0] == 'itref':
                                v = self.read(s2, v[1], a.get('t', ''))
                            nxt.append((s2, acc + [v]))
            states = nxt
        return states

    def val(self, st, v, t=''):
        if v[0] == 'ref':
            return self.read(st, v[1], t)
        if v[0] == 'itref':
            return self.read(st, v[1], t)
        return v

    def e_call(self, e, st, fr):
        if 'fe' in e:
            return self.call_expr(e, st, fr)
        name = e['n']
        fnc = self.p.funcs.get(e['f'])
        # receiver
        if name.startswith('std::') or name.startswith('__gnu_cxx::') or (fnc is None and not e.get('virt') and self.is_std(name)):
            import models
            return models.std_call(self, e, st, fr, name)
        if e.get('cls', '').startswith('lambda@') or e.get('cls', '').startswith('(lambda') or '(lambda' in name or '(anonymous class)' in name:
            return self.call_lambda_op(e, st, fr)
        out = []
        states = [(st, None)]
        if 'obj' in e:
            states = self.eval(e['obj'], st, fr)
            states = [(s, v if isinstance(v, Exc) else self.norm(s, self.val(s, v, e['obj'].get('t', '')))) for s, v in states]
        for s, recv in states:
            if isinstance(recv, Exc):
                out.append((s, recv))
                continue
            if recv is not None and recv[0] == 'some':
                recv = recv[1]
            for s2, args in self.eval_args(e['a'], s, fr, fnc if fnc else self.decl_of(e)):
                if isinstance(args, Exc):
                    out.append((s2, args))
                    continue
                out += self.do_call(e, s2, fr, name, fnc, recv, args)
        return self.merge(out) if len(out) > 8 else out

    LIBM = {'lround', 'round', 'floor', 'ceil', 'fabs', 'abs', 'tolower', 'toupper', 'isnan', 'isinf', 'isfinite'}

    def is_std(self, name):
        return name.startswith('std::') or name.startswith('__gnu') or name in self.LIBM

    def decl_of(self, e):
        """parameter types from the record's method declaration when there is no body"""
        r = self.p.mrec.get(e['f'])
        if r:
            for m in self.p.methods_of[r]:
                if m['f'] == e['f']:
                    return {'params': [{'t': t, 'n': '', 'id': i} for i, t in enumerate(m['pt'])]}
        return None

    def do_call(self, e, st, fr, name, fnc, recv, args):
        hook = self.cfg.call_hook(self, st, fr, e, name, recv, args)
        if hook is not None:
            return hook
        if recv is not None and recv == NULL:
            return [(st, self.ub(st, fr, e, 'call through null pointer'))]
        if e.get('implicit') and e.get('asg') and recv is not None:
            v = self.val(st, args[0])
            self.mark_write(st, fr, e['obj'])
            self.write(st, ('self', recv), v)
            if e['asg'] == 'move':
                cls = self.clsof(v)
                if cls in self.p.records:
                    self.moved_from(st, v, cls)
            return [(st, recv)]
        target = fnc
        if e.get('virt') and not e.get('qual'):
            target = None
            if recv is not None and recv[0] == 'o':
                m = self.p.resolve(e['f'], recv[2])
                if m and m['f'] in self.p.funcs:
                    target = self.p.funcs[m['f']]
            if target is None:
                return self.opaque_call(e, st, fr, name, recv, args)
        if target is None or ('body' not in target):
            return self.opaque_call(e, st, fr, name, recv, args)
        if recv is not None and recv[0] != 'o':
            cls = e.get('cls', '')
            if any(self.p.is_a(cls, c) for c in self.cfg.opaque_classes):
                return self.opaque_call(e, st, fr, name, recv, args)
        # recursion guard
        if self.in_stack(target, fr):
            self.taint(st, 'recursion into ' + name)
            return self.opaque_call(e, st, fr, name, recv, args)
        self.callstack.append(target['f'])
        try:
            return self.invoke(st, target, recv, args, fr)
        finally:
            self.callstack.pop()

    callstack = []

    def in_stack(self, target, fr):
        return self.callstack.count(target['f']) >= self.cfg.max_recursion

    def opaque_call(self, e, st, fr, name, recv, args):
        rt = e.get('t', 'int')
        vals = tuple(self.val(st, a) for a in args)
        if strip_t(rt) == 'void':
            ret = C(None)
        else:
            a = self.fresh('ret:' + name.split('::')[-1], strip_t(rt))
            ret = self.opaque_of_type(a, rt)
        self.ev(st, 'call', name, recv if recv is not None else C(None), vals, ret)
        # reference/pointer arguments may be written
        decl = self.decl_of(e) or self.p.funcs.get(e.get('f'))
        if decl is None and 'pt' in e:
            decl = {'params': [{'t': t} for t in e['pt']]}
        for i, a in enumerate(args):
            if a[0] == 'ref':
                pt = decl['params'][i]['t'] if decl and i < len(decl['params']) else ''
                if pt.strip().startswith('const ') or (not pt and self.const_ok(name)):
                    continue
                if pt and not pt.strip().endswith('&') and not pt.strip().endswith('*'):
                    continue
                old = self.read(st, a[1])
                t = self.ttype.get(old, '') or (strip_t(pt) if pt else '')
                if old[0] in ('seq', 'map', 'set'):
                    t = self.ttype.get(old[2], '') if old[2] else (strip_t(pt) if pt else '')
                if old[0] == 'c' and not t:
                    t = {bool: 'bool', int: 'int', float: 'double', str: 'std::basic_string<char>'}.get(type(old[1]), 'int')
                if old[0] == 'e':
                    t = self.p.enumval[old[1]][0]
                nv = self.opaque_of_type(self.fresh('out:%s:%d' % (name.split('::')[-1], i), t), t or 'int')
                self.write(st, a[1], nv)
        res = [(st, ret)]
        if self.cfg.may_throw(name):
            s2 = st.copy()
            self.ev(s2, 'threw', name)
            res.append((s2, Exc(self.fresh('exc:' + name), '?')))
        return res

    def const_ok(self, name):
        return False

    def call_lambda_op(self, e, st, fr):
        out = []
        if e.get('n', '').endswith(')()') or 'operator ' in e.get('n', '') and '(*)' in e.get('n', ''):
            # conversion of a captureless lambda to a function pointer
            return self.eval(e['obj'], st, fr)
        for s, f in self.eval(e['obj'], st, fr):
            if isinstance(f, Exc):
                out.append((s, f))
                continue
            f = self.val(s, f)
            lam = self.lams.get(f[1]) if f[0] == 'lam' else None
            for s2, args in self.eval_args(e['a'], s, fr, {'params': lam['params']} if lam else None):
                if isinstance(args, Exc):
                    out.append((s2, args))
                else:
                    out += self.apply(s2, f, args, fr, e)
        return out

    def call_expr(self, e, st, fr):
        """call through a function pointer / member pointer"""
        out = []
        fe = e['fe']
        if fe['k'] == 'bin' and fe.get('op') in ('->*', '.*'):
            for s, o in self.lv(fe['lhs'], st, fr) if fe['op'] == '.*' else self.eval(fe['lhs'], st, fr):
                for s1, f in self.eval(fe['rhs'], s, fr) if not isinstance(o, Exc) else [(s, o)]:
                    if isinstance(f, Exc):
                        out.append((s1, f))
                        continue
                    obj = o if o[0] != 'self' else o[1]
                    for s2, args in self.eval_args(e['a'], s1, fr, None):
                        if isinstance(args, Exc):
                            out.append((s2, args))
                        else:
                            out += self.apply(s2, self.val(s2, f), [obj] + args, fr, e)
            return out
        for s, f in self.eval(fe, st, fr):
            if isinstance(f, Exc):
                out.append((s, f))
                continue
            f = self.val(s, f)
            for s2, args in self.eval_args(e['a'], s, fr, None):
                if isinstance(args, Exc):
                    out.append((s2, args))
                else:
                    out += self.apply(s2, f, args, fr, e)
        return out

    def apply(self, st, f, args, fr, e):
        """call a callable value"""
        f = self.norm(st, f)
        if f[0] == 'ref':
            f = self.norm(st, self.read(st, f[1]))
        if f[0] == 'negp':
            return [(s, r if isinstance(r, Exc) else T('not', self.val(s, r))) for s, r in self.apply(st, f[1], args, fr, e)]
        if f == NULL:
            return [(st, self.ub(st, fr, e, 'call of empty function'))]
        if f[0] == 'lam':
            node = self.lams[f[1]]
            fn = {'params': node['params'], 'body': node['body'], 'n': 'lambda', 'ret': '', 'file': fr.file}
            key = ('lam', f[1])
            if self.callstack.count(key) >= 2:
                self.taint(st, 'recursive lambda')
                return [(st, self.fresh('lamret', e.get('t', '')))]
            self.callstack.append(key)
            try:
                args = [a if (i >= len(fn['params']) or fn['params'][i]['t'].strip().endswith('&')) else self.val(st, a)
                        for i, a in enumerate(args)]
                return self.invoke(st, fn, f[2] if f[2] != NULL else None, args, fr, lam=f)
            finally:
                self.callstack.pop()
        if f[0] == 'fn':
            fnc = self.p.funcs.get(f[1])
            recv = f[2]
            if fnc is None or 'body' not in fnc:
                node = {'f': f[1], 'n': 'fnptr', 't': e.get('t', 'int'), 'l': e.get('l')}
                d = next((m for r in self.p.methods_of.values() for m in r if m['f'] == f[1]), None)
                if d:
                    node['n'] = d['n']
                    if recv is None and args:
                        recv, args = self.val(st, args[0]), args[1:]
                    node.update({'virt': d.get('virt'), 'cls': d.get('cls', '')})
                    return self.do_call(node, st, fr, node['n'], fnc, recv, args)
                return self.opaque_call(node, st, fr, node['n'], recv, args)
            if recv is None and fnc.get('cls') and not fnc.get('static') and args:
                recv, args = self.val(st, args[0]), args[1:]
            args = [a if (i >= len(fnc['params']) or fnc['params'][i]['t'].strip().endswith('&')) else self.val(st, a)
                    for i, a in enumerate(args)]
            node = {'f': f[1], 'n': fnc['n'], 't': fnc['ret'], 'l': e.get('l'), 'virt': fnc.get('virt'), 'cls': fnc.get('cls', '')}
            return self.do_call(node, st, fr, fnc['n'], fnc, recv, args)
        if f[0] == 'bind':
            target, bargs = f[1], f[2]
            full = []
            for b in bargs:
                if b[0] == 'ph':
                    full.append(args[b[1] - 1] if b[1] - 1 < len(args) else self.fresh('ph'))
                else:
                    full.append(b)
            return self.apply(st, target, full, fr, e)
        if f[0] == 'o':
            # functor object: operator()
            for c in self.p.bases(f[2]):
                for m in self.p.methods_of.get(c, ()):
                    if m['name'] == 'operator()' and m['f'] in self.p.funcs and 'body' in self.p.funcs[m['f']]:
                        return self.invoke(st, self.p.funcs[m['f']], f, args, fr)
        # opaque callable: an event
        rt = e.get('rt') or e.get('t', 'void')
        ret = C(None) if strip_t(rt) == 'void' else self.opaque_of_type(self.fresh('ret:fn', strip_t(rt)), rt)
        self.ev(st, 'invoke', f, tuple(self.val(st, a) for a in args), ret, tuple(st.locks))
        res = [(st, ret)]
        if self.cfg.may_throw('invoke'):
            s2 = st.copy()
            self.ev(s2, 'threw', 'invoke')
            res.append((s2, Exc(self.fresh('exc:fn'), '?')))
        return res

    # iterators ---------------------------------------------------------------
    # ('it', loc, ('i',k)) | ('it', loc, ('cur', mid, pos)) | ('it', loc, ('s',k)) | ('it', loc, ('end',)) | ('it', loc, ('key',k,v))
    def it_deref(self, st, v, e, fr):
        loc, p = v[1], v[2]
        c = self.read(st, loc)
        if p[0] == 'i':
            els = self.elems_known(c)
            if p[1] < len(els):
                el = els[p[1]]
                if el[0] in ('o',):
                    return [(st, ('self', el))]
                if c[0] == 'seq':
                    return [(st, ('elemat', loc, p[1]))]
                if c[0] == 'map':
                    l = ('tmp', self.tick())
                    st.store[l] = el
                    return [(st, l)]
                l = ('tmp', self.tick())
                st.store[l] = el
                return [(st, l)]
            return [(st, self.ub(st, fr, e, 'dereference past end'))]
        if p[0] == 's':
            l = ('tmp', self.tick())
            st.store[l] = c[3][p[1]] if p[1] < len(c[3]) else self.fresh('x')
            return [(st, l)]
        if p[0] == 'end':
            return [(st, self.ub(st, fr, e, 'dereference of end iterator'))]
        if p[0] == 'key':
            l = ('mapent', loc, p[1])
            tmp = ('tmp', self.tick())
            st.store[tmp] = ('tup', (p[1], p[2])) if c[0] == 'map' else p[1]
            return [(st, tmp)]
        if p[0] == 'cur':
            el = self.elem(p[1], p[2])
            t = self.ttype.get(el, '')
            if classify(t) == 'cls' and not self.p.enums.get(strip_t(t)):
                return [(st, ('self', el))]
            l = ('elem', loc, el)
            if l not in st.store:
                st.store[l] = self.opaque_of_type(el, t or e.get('t', 'int'))
            return [(st, l)]
        return [(st, ('tmp', self.tick()))]

    def it_begin(self, st, loc):
        c = self.read(st, loc)
        if self.elems_known(c):
            return ('it', loc, ('i', 0))
        mid = c[2] if c[0] in ('seq', 'map', 'set') else (c if c[0] in 'at' else None)
        if mid is not None:
            return ('it', loc, ('cur', mid, C(0)))
        if c[0] == 'seq' and c[3]:
            return ('it', loc, ('s', 0))
        return ('it', loc, ('end',))

    def it_next(self, st, v, n=1):
        loc, p = v[1], v[2]
        c = self.read(st, loc)
        if p[0] == 'i':
            els = self.elems_known(c)
            if p[1] + n < len(els):
                return ('it', loc, ('i', p[1] + n))
            if n == 1:
                mid = c[2] if c[0] in ('seq', 'map', 'set') else None
                if mid is not None:
                    return ('it', loc, ('cur', mid, C(0)))
                if c[0] == 'seq' and c[3]:
                    return ('it', loc, ('s', 0))
                return ('it', loc, ('end',))
            if p[1] + n == len(els) and c[2] is None:
                return ('it', loc, ('end',))
        if p[0] == 'cur':
            if n == 1:
                # next position: +1, widened by loops
                return ('it', loc, ('cur', p[1], self.arith(st, '+', p[2], C(1), 'unsigned long')))
            return ('it', loc, ('cur', p[1], self.typed(T('+', p[2], n if isinstance(n, tuple) else C(n)), 'unsigned long')))
        if p[0] == 's':
            return ('it', loc, ('s', p[1] + n)) if p[1] + n < len(c[3]) else ('it', loc, ('end',))
        self.taint(st, 'iterator arithmetic')
        return ('it', loc, ('end',))

    def it_norm(self, st, v):
        """an index position behind the known elements, re-expressed against the current content"""
        if v[2][0] == 'i':
            c = self.read(st, v[1])
            els = self.elems_known(c)
            if v[2][1] >= len(els):
                mid = c[2] if c[0] in ('seq', 'map', 'set') else None
                if mid is not None:
                    return ('it', v[1], ('cur', mid, C(0)))
                if c[0] == 'seq' and c[3]:
                    return ('it', v[1], ('s', 0))
                return ('it', v[1], ('end',))
        return v

    def it_eq(self, st, a, b):
        """-> list of (st, bool)"""
        a, b = self.it_norm(st, a), self.it_norm(st, b)
        if a == b:
            return [(st, True)]
        if a[2][0] == 'end' and b[2][0] != 'end':
            a, b = b, a
        if b[2][0] == 'end':
            if a[2][0] == 'end':
                return [(st, True)]
            if a[2][0] == 'cur':
                out = []
                for s, m in self.more(st, a[2][1], a[2][2]):
                    c = self.read(s, a[1])
                    if not m and c[0] == 'seq' and c[3]:
                        self.taint(s, 'iterator suffix')
                    out.append((s, not m))
                return out
            return [(st, False)]
        if a[2][0] == 'i' and b[2][0] == 'i':
            return [(st, a[2][1] == b[2][1])]
        if a[2][0] == 'key' and b[2][0] == 'key':
            return self.decide_eq(st, a[2][1], b[2][1])
        if a[2][0] == 'cur' and b[2][0] == 'cur':
            return self.decide_eq(st, a[2][2], b[2][2])
        self.taint(st, 'iterator comparison')
        return self.decide(st, self.fresh('iteq', 'bool'))

    def range_value(self, st, a, b):
        """the sequence value between two iterators (only whole ranges and known index ranges)"""
        c = self.read(st, a[1])
        if a[1] != b[1] and self.canon_loc(st, a[1]) != self.canon_loc(st, b[1]):
            return None
        if b[2][0] == 'end':
            beg = self.it_begin(st, a[1])
            if a[2] == beg[2]:
                return c
            if a[2][0] == 'i' and c[0] == 'seq':
                return ('seq', c[1][a[2][1]:], c[2], c[3])
        if a[2][0] == 'i' and b[2][0] == 'i' and c[0] == 'seq':
            return ('seq', c[1][a[2][1]:b[2][1]], None, ())
        return None
