"""Check framework: obligations decided on the outcomes of the abstract interpreter."""
import json, os, sys, time, traceback
from prog import Program, AnalysisError, short, REPO, walk, split_targs
from absint import Interp, Cfg, St, Fr, Exc, TooComplex, C, T, NULL, TRUE, FALSE, classify, strip_t, head_t

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('OAC_OUT') or VERIF       # self tests write elsewhere
NS = 'sup::oac_tree::'
with open(os.path.join(VERIF, 'lib', 'classes.txt')) as _f:
    # classes with an interface of their own: calls on other objects of these classes are effects, calls on
    # objects of any other (helper) class are analysed through
    KNOWN_CLASSES = set(x.split('<')[0] for x in _f.read().split('\n') if x)


def show(v):
    """printable form of an abstract value / event"""
    if isinstance(v, frozenset):
        return '{' + ', '.join(sorted(show(x) for x in v)) + '}'
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'c':
            return {True: 'true', False: 'false', None: 'null'}.get(v[1], repr(v[1])) if not isinstance(v[1], (int, float)) or isinstance(v[1], bool) else repr(v[1])
        if len(v) == 3 and v[0] == 'e':
            return v[1].split('::')[-1]
        if len(v) == 3 and v[0] == 'a':
            return '<%s%s>' % (v[2], '' if v[1] == 0 else '#%s' % v[1])
        if v and v[0] == 't':
            return str(v[1]) + '(' + ', '.join(show(x) for x in v[2:]) + ')'
        if v and v[0] == 'o' and len(v) == 3:
            return 'this' if v[1] == 0 else '%s#%d' % (v[2].split('::')[-1], v[1])
        if len(v) == 3 and v[0] == 'fld':
            return show(v[1]) + '.' + str(v[2])
        if len(v) == 4 and v[0] == 'seq':
            return '[' + ', '.join([show(x) for x in v[1]] + (['..%s..' % show(v[2])] if v[2] else []) + [show(x) for x in v[3]]) + ']'
        return '(' + ', '.join(show(x) for x in v) + ')'
    return str(v)


class ModCfg(Cfg):
    """Object-modular analysis: calls that leave the object under analysis become events, except for
    functions the check asks to see through and for trivial accessors."""
    max_time = 60
    inline = ()          # qualified-name suffixes always analysed through
    opaque = ()          # qualified-name suffixes/prefixes never analysed through
    throws = ()          # names of calls that may throw
    modular = True

    def __init__(self, inline=(), opaque=(), throws=(), modular=None, hook=None, max_time=None, sequential=False, run_async=False, **extra):
        self.inline = tuple(inline) or self.inline
        self.opaque = tuple(opaque) or self.opaque
        self.throws = throws or self.throws
        if modular is not None:
            self.modular = modular
        self.hook = hook
        self.sequential = sequential
        self.run_async = run_async
        for k, v in extra.items():
            setattr(self, k, v)
        if max_time:
            self.max_time = max_time

    def may_throw(self, name):
        if callable(self.throws):
            return self.throws(name)
        return any(match(name, t) for t in self.throws)

    def call_hook(self, I, st, fr, node, name, recv, args):
        if self.hook is not None:
            r = self.hook(I, st, fr, node, name, recv, args)
            if r is not None:
                return r
        if args is None:
            return None
        if any(match(name, x) for x in self.opaque):
            return I.opaque_call(node, st, fr, name, recv, args)
        if not self.modular or any(match(name, x) for x in self.inline):
            return None
        if recv is not None and recv[0] != 'o' and node.get('cls', '').split('<')[0] in KNOWN_CLASSES:
            f = I.p.funcs.get(node['f'])
            if f is not None and trivial(f) and not node.get('virt'):
                return None
            return I.opaque_call(node, st, fr, name, recv, args)
        return None


def match(name, pat):
    if pat.endswith('*'):
        return name.startswith(pat[:-1]) or ('::' + pat[:-1]) in name
    return name == pat or name.endswith('::' + pat)


def trivial(f):
    """accessor: a single return statement without loops or assignments"""
    b = f.get('body')
    if not b or b.get('s') != 'block' or len(b['b']) != 1:
        return False
    s = b['b'][0]
    return s.get('s') == 'return'


class Undecided(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == 'thorough'
        self.obligations = 0
        self.discharged = 0
        self.violations = []
        self.undecided = []
        self.funcs = set()
        self.npaths = 0
        self.rules = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self._p = None
        self.accesses = set()

    @property
    def p(self):
        if self._p is None:
            self._p = Program()
        return self._p

    # ------------------------------------------------------------- running
    def paths(self, f, cfg=None, this=None, override=None, prep=None, args=None, decide=True):
        """outcomes of analysing function f (dict or name) from an arbitrary state; None if undecided"""
        if isinstance(f, str):
            f = self.p.one(f)
        I = Interp(self.p, cfg or ModCfg())
        st = St()
        if this is None and f.get('cls') and not f.get('static'):
            this = I.this_obj(f['cls'])
        try:
            if prep:
                prep(I, st, this)
            a = args if args is not None else I.sym_args(st, f, override)
            outs = I.run(f, this, a, st)
        except TooComplex as e:
            self.und('%s: %s' % (f['n'], e))
            return None
        except AnalysisError:
            raise
        except (RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
            # the interpreter met a shape it does not model: no verdict for this function
            if os.environ.get('OAC_DEBUG'):
                traceback.print_exc()
            self.und('%s: engine: %s' % (f['n'], repr(e)[:200]))
            return None
        res = []
        for o in outs:
            o.I = I
            o.fn = f
            if decide and o.kind == 'ret' and o.val is not None and strip_t(f.get('ret', '')) == 'bool' and o.val[0] != 'c':
                try:
                    for s, b in I.decide(o.st, o.val):
                        o2 = type(o)(s, o.kind, C(b), o.cls)
                        o2.I, o2.fn = I, f
                        res.append(o2)
                    continue
                except Exception:
                    pass
            res.append(o)
        self.funcs |= set(I.analysed) | {f['n']}
        self.accesses |= I.accesses
        self.npaths += len(res)
        return res

    # ------------------------------------------------------------- verdicts
    def ob(self, rule, where, bad=None, taint=(), detail=()):
        """one obligation; bad = None when it holds, else the reason"""
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if bad is None:
            self.discharged += 1
            if len(self.samples) < 12 and self.rules[rule] <= 2:
                self.samples.append('%s @ %s: holds' % (rule, site(where)))
            return True
        if taint:
            self.und('%s @ %s: %s (not modelled: %s)' % (rule, site(where), bad, '; '.join(taint)))
            return False
        self.violations.append({'rule': rule, 'where': site(where), 'function': where['n'] if isinstance(where, dict) and 'n' in where else str(where),
                                'why': bad, 'path': list(detail)})
        return False

    def judge(self, outs, rule, pred, where=None, need=True):
        """apply pred(outcome) -> None | reason to every outcome"""
        if outs is None:
            return
        if not outs:
            self.und('%s: no feasible path' % rule)
            return
        for o in outs:
            try:
                bad = pred(o)
            except Undecided as e:
                self.und('%s @ %s: %s' % (rule, site(where or o.fn), e))
                continue
            self.ob(rule, where or o.fn, bad, o.taint, describe(o) if bad else ())

    def parallel(self, jobs, workers=8):
        """jobs (rule, client program, predicate, kwargs): each analysed in a forked worker, results merged in order"""
        import multiprocessing as mp
        from client import client
        self.p
        if os.environ.get('OAC_SERIAL'):
            for rule, name, pred, kw in jobs:
                self.judge(client(self, name, **kw), rule, pred)
            return
        global _JOBS
        _JOBS = (self, jobs)
        with mp.get_context('fork').Pool(min(workers, len(jobs))) as pool:
            parts = pool.map(_job, range(len(jobs)), chunksize=1)
        for err, d in parts:
            if err:
                raise AnalysisError(err)
            self.obligations += d['obligations']
            self.discharged += d['discharged']
            self.violations += d['violations']
            for u in d['undecided']:
                self.und(u)
            self.funcs |= d['funcs']
            self.accesses |= d['accesses']
            self.npaths += d['npaths']
            for k, v in d['rules'].items():
                self.rules[k] = self.rules.get(k, 0) + v
            self.samples += d['samples'][:max(0, 12 - len(self.samples))]

    def und(self, text):
        if text not in self.undecided:
            self.undecided.append(text)

    def require(self, cond, text):
        if not cond:
            raise AnalysisError(text)


_JOBS = None


def _job(i):
    from client import client
    base, jobs = _JOBS
    rule, name, pred, kw = jobs[i]
    c = Ctx(base.pid, base.tier)
    c._p = base._p
    try:
        c.judge(client(c, name, **kw), rule, pred)
    except AnalysisError as e:
        return str(e), None
    except (Undecided, TooComplex) as e:
        c.und('%s: %s' % (name, e))
    return None, dict(obligations=c.obligations, discharged=c.discharged, violations=c.violations, undecided=c.undecided,
                      funcs=c.funcs, accesses=c.accesses, npaths=c.npaths, rules=c.rules, samples=c.samples)


def site(w):
    if isinstance(w, dict):
        if 'file' in w:
            return '%s:%s %s' % (short(w['file']), w.get('l', '?'), w.get('n', ''))
        return w.get('n', '?')
    return str(w)


def describe(o):
    out = ['%s -> %s %s %s' % (site(o.fn), o.kind, o.cls or '', show(o.val) if o.val is not None else '')]
    for t, f in list(o.st.facts.items())[:20]:
        out.append('  when %s %s %s' % (show(t), f[0], show(f[1])))
    for (a, b), r in list(o.st.rels.items())[:10]:
        out.append('  when %s %s %s' % (show(a), '|'.join(sorted(r)), show(b)))
    for n, l, t in o.st.trail[:30]:
        out.append('  at %s:%s %s' % (n, l, t))
    for e in o.log[:60]:
        out.append('  effect %s' % show(e)[:400])
    return out


# ------------------------------------------------------------------ value helpers
def content(o, loc=None, val=None):
    """canonical content of a sequence: tuple of items, ('mid', m) for the opaque remainder"""
    st = o.st
    if val is None:
        f = o.I.p.field(loc[1][2], loc[2]) if loc[0] == 'fld' and loc[1][0] == 'o' else None
        val = o.I.read(st, loc, f['t'] if f else '')
    v = val
    if v[0] != 'seq':
        return ('?', v)
    pre, mid, suf = list(v[1]), v[2], list(v[3])
    out = list(pre)
    if mid is not None and st.facts.get(T('empty', mid), (None, ()))[1] != frozenset([TRUE]):
        out.append(('mid', mid))
    out += suf
    # head(m), tail(m) -> m
    i = 0
    while i + 1 < len(out):
        h, t = out[i], out[i + 1]
        if h[0] == 't' and h[1] == 'elem' and h[3] == C(0) and t == ('mid', T('tail', h[2])):
            out[i:i + 2] = [('mid', h[2])]
            i = max(0, i - 1)
            continue
        i += 1
    return tuple(norm(o, x) if x[0] != 'mid' else x for x in out)


def norm(o, v):
    return o.I.norm(o.st, v)


def same(o, a, b):
    return norm(o, a) == norm(o, b)


def alike(o, a, b, depth=0):
    """the same value: identical, copies of each other, or class values whose members are alike"""
    for _ in range(8):
        a = o.st.store.get(('copyof', a), a)
        b = o.st.store.get(('copyof', b), b)
    a, b = norm(o, a), norm(o, b)
    if a == b:
        return True
    cls = a[2] if a[0] == 'o' else b[2] if b[0] == 'o' else None
    fs = o.I.p.fields(cls) if cls in o.I.p.records else []
    if not fs or depth > 4:
        return False

    def get(x, f):
        k = ('fld', x, f['n'])
        return o.st.store[k] if k in o.st.store else o.I.read(o.st, k, f['t'])
    return all(alike(o, get(a, f), get(b, f), depth + 1) for f in fs)


def flat(log):
    """all events, including those inside loops"""
    for e in log:
        if e[0] == 'star':
            for it in e[2]:
                yield from flat(it)
        else:
            yield e


def events(o, *kinds):
    return [e for e in flat(o.log) if e[0] in kinds]


def top(o, *kinds):
    return [e for e in o.log if e[0] in kinds]


def isnull(o, v):
    """True/False if nullness of v is known on this path, else None"""
    v = norm(o, v)
    if v == NULL:
        return True
    if v[0] in ('o', 'lam', 'fn', 'bind', 'some'):
        return False
    f = o.st.facts.get(v)
    if f and NULL in f[1]:
        return f[0] == 'in' if len(f[1]) == 1 else (None if f[0] == 'in' else False)
    if f and f[0] == 'in':
        return NULL in f[1]
    return None


def is_empty(o, m):
    f = o.st.facts.get(T('empty', m))
    if f and f[0] == 'in' and len(f[1]) == 1:
        return next(iter(f[1])) == TRUE
    return None


def fields_where(p, cls, pred):
    return [f for f in p.fields(cls) if pred(f)]


def by_kind(p, cls, kind, sub=None):
    return [f['n'] for f in p.fields(cls) if classify(f['t']) == kind and (sub is None or sub in f['t'])]


def the_field(ctx, cls, kind, sub=None, what=''):
    c = by_kind(ctx.p, cls, kind, sub)
    if len(c) != 1:
        raise Undecided('%s: expected one %s member%s, found %s' % (cls, kind, ' of ' + sub if sub else '', c))
    return c[0]


THIS = lambda cls: ('o', 0, cls)
ARG = lambda n: ('a', 0, 'arg:' + n)


# ------------------------------------------------------------------ known findings and the driver
def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = {}
                body, _, desc = l[len('finding:'):].partition(' :: ')
                for part in body.split(' | '):
                    k, _, v = part.strip().partition('=')
                    d[k] = v
                d['desc'] = desc
                out.append(d)
    return out


def run_check(pid, fn, meta, tier, seed):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    err = None
    try:
        fn(ctx)
    except Undecided as e:
        ctx.und(str(e))
    except TooComplex as e:
        ctx.und(str(e))
    except AnalysisError as e:
        err = str(e)
    kf = [k for k in known_findings() if k.get('property') == pid]
    viol, known = [], []
    seenk = set()
    for v in ctx.violations:
        hit = None
        for k in kf:
            if k.get('rule') == v['rule'] and k.get('function') == v['function'] and k.get('construct', '') in v['why']:
                hit = k
        if hit:
            known.append((hit, v))
        else:
            viol.append(v)
    for h, v in known:
        key = (h.get('rule'), h.get('function'), h.get('construct'))
        if key in seenk:
            continue
        seenk.add(key)
        print('KNOWN-FINDING: property=%s %s' % (pid, h['desc']))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': meta.get('explain', '') + ' Every obligation was decided on the typed syntax trees of the current sources by abstract interpretation; nothing was executed.',
            'units_parsed': ctx._p.units if ctx._p else 0,
            'units_reparsed_this_run': ctx._p.fresh if ctx._p else 0,
            'functions_analysed': len(ctx.funcs), 'functions': sorted(ctx.funcs)[:200],
            'paths': ctx.npaths, 'obligations': ctx.obligations, 'discharged': ctx.discharged,
            'undecided': ctx.undecided, 'rule': meta.get('rule', ''), 'rules_applied': ctx.rules,
            'known_findings_matched': len(known), 'samples': ctx.samples or ['none'],
        },
        'assumptions': meta.get('assumptions', []) + ctx.assumptions,
        'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if err:
        print('ERROR: analysis broken for %s: %s' % (pid, err))
        if not viol:
            return 2
    for u in ctx.undecided:
        print('UNDECIDED: %s' % u[:300])
    print('%s: %d obligations, %d discharged, %d undecided, %d functions, %d paths, %.1fs' % (
        pid, ctx.obligations, ctx.discharged, len(ctx.undecided), len(ctx.funcs), ctx.npaths, time.time() - t0))
    if viol:
        os.makedirs(os.path.join(OUT, 'build', 'replay'), exist_ok=True)
        path = os.path.join(OUT, 'build', 'replay', pid + '.txt')
        with open(path, 'w') as f:
            for v in viol:
                f.write('rule: %s\nwhere: %s\nwhy: %s\n' % (v['rule'], v['where'], v['why']))
                f.write(''.join('  %s\n' % x for x in v['path']) + '\n')
        for v in viol[:8]:
            print('  %s: %s: %s' % (v['where'], v['rule'], v['why']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if ctx.obligations == 0:
        print('ERROR: no obligation was instantiated for %s' % pid)
        return 2 if not ctx.undecided else 0
    return 0


# ------------------------------------------------------------------ tables over enumerations
def enumerators(ctx, enum):
    e = ctx.p.enums.get(enum)
    ctx.require(e is not None, 'enumeration %s not found' % enum)
    return [('e', c['n'], int(c['v'])) for c in e['c']]


def results(ctx, f, override, cfg=None, prep=None):
    """set of results of f for the given arguments, or None if undecided"""
    outs = ctx.paths(f, cfg, override=override, prep=prep)
    if outs is None:
        return None, ()
    res, taint = set(), ()
    for o in outs:
        taint += o.taint
        if o.kind == 'ret':
            v = norm(o, o.val)
            if v[0] == 'ref':
                v = norm(o, o.I.read(o.st, v[1]))
            if v[0] == 'c' and v[1] is None and 'basic_string' in f.get('ret', ''):
                v = C('')
            res.add(v)
        else:
            res.add((o.kind, o.cls))
    return res, taint


def other_value(term):
    return term


def table(ctx, rule, f, enum, expect, other=None):
    """f(e) == expect[e] for every enumerator e, and f(x) == other for every other value"""
    p0 = f['params'][0]['n']
    es = enumerators(ctx, enum)
    missing = [k for k in expect if all(not e[1].endswith('::' + k) for e in es)]
    ctx.require(not missing, 'enumerators %s of %s not found' % (missing, enum))
    for e in es:
        short_name = e[1].split('::')[-1]
        if short_name not in expect:
            continue
        res, taint = results(ctx, f, {p0: e})
        if res is None:
            continue
        want = C(expect[short_name]) if not isinstance(expect[short_name], tuple) else expect[short_name]
        bad = None if res == {want} else '%s maps to %s, expected %s' % (short_name, show(frozenset(res)), show(want))
        ctx.ob(rule, f, bad, taint)
    if other is not None:
        def prep(I, st, this):
            st.facts[ARG(p0)] = ('out', frozenset(es))
        res, taint = results(ctx, f, None, prep=prep)
        if res is not None and res:
            want = C(other) if not isinstance(other, tuple) else other
            bad = None if res == {want} else 'a value outside the enumeration maps to %s, expected %s' % (show(frozenset(res)), show(want))
            ctx.ob(rule, f, bad, taint)
