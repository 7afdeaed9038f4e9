"""Procedures: their life and the procedures they include."""
from client import *
import itertools
from valmodel import *
from checks import check
from checks.vars import agrees
from checks.leaf import const_of, held, leaf_env


def proc_env(ops):
    def given(I, st, fr, node, name, recv, args):
        if args is None:
            return None
        last = name.split('::')[-1]
        if name.startswith('oacdrv::'):
            if last in ('RootSetup', 'VarSetup'):
                return [(s, C(b)) for s, b in forks(I, st, last, (const_of(I, st, args[0]),))]
            if last == 'VarActions':
                return [(st, C(0))]
            if last in ('RootExec', 'RootHalt', 'RootReset', 'VarTeardown'):
                I.ev(st, 'drv', last, tuple(C(const_of(I, st, a)) for a in args), C(None))
                return [(st, C(None))]
            return None
        if name.endswith('AttributeHandler::ValidateAttributes'):
            # variables and instructions are checked elsewhere
            if not any(v == recv and k[0] == 'fld' and k[1][0] == 'o' and k[1][2].endswith('::Procedure') for k, v in st.store.items()):
                return [(st, C(True))]
            return [(s, C(b)) for s, b in forks(I, st, 'Valid', ())]
        if last == 'ParseProcedureFile':
            I.ev(st, 'drv', 'Parse', (C(const_of(I, st, args[0])),), C(None))
            return I.invoke(st, I.p.fn('oacdrv::MakeSub')[0], None, list(args), fr)
        if last == 'As' and recv is not None:
            d = desc(I, st, recv)
            if isinstance(d, tuple) and d[0] == 'lit':
                return [(st, C(d[1]))]
        if last == 'ParseTypeRegistrationInfo':
            return None
        if name.endswith('JSONAnyTypeParser::ParseString'):
            t = const_of(I, st, args[0])
            st.store[('g', 'lasttype')] = C(t)
            return [(s, C(b)) for s, b in forks(I, st, 'ParseType', (t,))]
        if name.endswith('JSONAnyTypeParser::MoveAnyType'):
            return [(st, any_make(I, st, ('parsedtype', st.store[('g', 'lasttype')][1]), 'type'))]
        if last == 'RegisterType' and 'AnyTypeRegistry' in name or name.endswith('Workspace::RegisterType'):
            return [(s, C(b)) for s, b in forks(I, st, 'RegisterType', (desc(I, st, args[0]),))]
        return None
    return given


EFF = ('Mark', 'Valid', 'VarSetup', 'VarTeardown', 'RootSetup', 'RootExec', 'RootHalt', 'RootReset', 'RegisterType', 'ParseType', 'Parse',
       'SeenBool', 'SeenInt', 'SeenStatus')
OPNAME = {0: 'Setup', 1: 'ExecuteSingle', 2: 'Halt', 3: 'Reset', 4: 'loading the included procedure'}


class Fails(Exception):
    pass


class Ws:
    def __init__(self, s, n):
        self.s, self.n, self.done = s, n, False

    def setup(self):
        if not self.done:
            if not self.s.ask('VarSetup', self.n):
                raise Fails(3)
            self.done = True

    def teardown(self):
        self.done = False
        self.s.see('VarTeardown', self.n)


def root_of(tops):
    """the instruction a procedure runs: its only one, or the one marked as root"""
    have = [(k, t) for k, t in enumerate(tops) if t]
    if len(have) == 1:
        return have[0][0]
    for k, t in have:
        if t == 2:
            return k
    return None


def life(ops, order):
    tops, types, ops = ops[:2], ops[2], [x for x in ops[3:] if x >= 0]

    def script(s):
        main, sub = Ws(s, 0), Ws(s, 1)
        m = {'status': 'NOT_STARTED', 'halt': False, 'loaded': False}
        root = root_of(tops)

        def reset_root():
            if root is not None:
                s.see('RootReset', root)
                m['status'], m['halt'] = 'NOT_STARTED', False

        def setup():
            if not s.ask('Valid'):
                raise Fails(1)
            for k in range(types):
                if not s.ask('ParseType', 't%d' % k) or not s.ask('RegisterType', ('parsedtype', 't%d' % k)):
                    raise Fails(1)
            main.setup()
            if root is None:
                raise Fails(1)
            if not s.ask('RootSetup', root):
                raise Fails(2)

        def execute():
            if root is None:
                return
            if m['status'] == 'NOT_STARTED':
                m['status'] = 'NOT_FINISHED'
            if not m['halt']:
                s.see('RootExec', root, True)
                m['status'] = 'RUNNING'

        def halt():
            if root is not None:
                m['halt'] = True
                s.see('RootHalt', root)

        def reset():
            reset_root()
            steps = {'mt': main.teardown, 'ms': main.setup, 'st': lambda: m['loaded'] and sub.teardown(), 'ss': lambda: m['loaded'] and sub.setup()}
            for x in order.split():
                steps[x]()

        def load():
            if not m['loaded']:
                s.see('Parse', 'sub.xml')
                if not s.ask('ParseType', 't9') or not s.ask('RegisterType', ('parsedtype', 't9')):
                    s.see('VarTeardown', 1)
                    raise Fails(1)
                m['loaded'] = True
            for k, b in enumerate((True, True, True, True, False, True)):
                s.see('SeenBool', k, b)
            sub.setup()

        for k, op in enumerate(ops):
            s.see('Mark', k + 3)
            try:
                (setup, execute, halt, reset, load)[op]()
            except Fails as e:
                s.see('SeenInt', e.args[0], k + 3)
            s.see('SeenStatus', k + 3, 'SUCCESS' if root is None else m['status'])
        s.see('Mark', 99)
        reset_root()
        if order.index('mt') < order.index('st'):
            main.teardown()
            if m['loaded']:
                sub.teardown()
        else:
            if m['loaded']:
                sub.teardown()
            main.teardown()
        s.see('Mark', 100)
    return script


ORDERS = ('mt st ss ms', 'mt ms st ss', 'st ss mt ms', 'st mt ms ss', 'mt st ms ss', 'st mt ss ms')


def same_life(ops, what):
    """the order in which independent workspaces are treated is free"""
    preds = [agrees(life(ops, order), EFF, what) for order in ORDERS]

    def pred(o):
        first = None
        for pr in preds:
            bad = pr(o)
            if not bad:
                return None
            first = first or bad
        return first
    return pred


def lives(thorough):
    seen = []
    for tops in itertools.product((0, 1, 2, 3), repeat=2):
        for ops in ((0, 1), (1, 2, 3), (2, 0, 1, 3)):
            seen.append(tops + (0,) + ops + (-1,))
    for types in (1, 2):
        for ops in ((0,), (0, 1, 3, 1)):
            seen.append((1, 0, types) + ops + (-1,))
    for n in range(1, 5 if thorough else 4):
        for ops in itertools.product(range(5), repeat=n):
            seen.append((1, 0, 0) + ops + (-1,))
    for ops in ((0, 4, 1, 3, 1), (4, 0, 1, 3, 3), (0, 1, 4, 3, 4), (0, 4, 3, 1, 2), (0, 1, 2, 3, 1), (4, 4, 3, 4, 3)):
        seen.append((1, 0, 0) + ops + (-1,))
    return list(dict.fromkeys(seen))


@check('C37', rule='no-instruction-runs-while-its-variables-go-away',
       explain='Whatever is done to a procedure, in whatever order, and whatever in it fails: setting it up checks its attributes, registers its '
               'types, sets up its variables and then its root instruction, and stops at the first failure; resetting and destroying it resets the '
               'root instruction before any variable of it, or of a procedure it includes, is torn down; an included procedure is parsed once and '
               'shared.')
def c37(ctx):
    jobs = []
    for ops in lives(ctx.thorough):
        what = 'a procedure with %s, after %s: ' % (', '.join('a top instruction %s' % {1: 'without isRoot', 2: 'with isRoot=true', 3: 'with isRoot=false'}[t]
                                                              for t in ops[:2] if t) or 'no instruction',
                                                    ', '.join(OPNAME[x] for x in ops[3:] if x >= 0))
        jobs.append(('life', 'ProcedureLife', same_life(ops, what), dict(extra=val_hook(program(ops, proc_env(ops))), max_time=60, opaque=(), deep=True)))
    ctx.parallel(jobs)


# ---- instructions that use another procedure

DEFINED = {'Inner': (), 'Sequence': (), 'Include': ('path', 'file'), 'IncludeProcedure': ('file', 'path')}
TOPS = (('Inner', (('name', 'x'), ('v', '$par')), ()),
        ('Sequence', (('name', 'y'), ('isRoot', 'true')), (
            ('Inner', (('name', 'p'), ('v', 'lit')), ()),
            ('Inner', (('name', 'q'), ('v', '$name')), ()),
            ('Include', (('name', 'r'), ('path', 'x')), ()),
            ('Include', (('name', 's'), ('path', 'x'), ('par', 'own')), ()),
            ('Sequence', (('name', 't'),), (('Inner', (('name', 'u'), ('v', 'lit')), ()),)))),
        ('Inner', (('name', 'x'), ('v', 'second')), ()),
        ('Inner', (('name', 'z'), ('v', 'lit')), ()))


def include_env(ops, attrs):
    base, leaf = proc_env(ops), leaf_env(attrs)

    def given(I, st, fr, node, name, recv, args):
        if args is None:
            return None
        last = name.split('::')[-1]
        if last == 'InnerSetup':
            return [(s, C(b)) for s, b in forks(I, st, last, tuple(const_of(I, st, a) for a in args))]
        if last == 'InnerExec':
            I.ev(st, 'drv', last, tuple(C(const_of(I, st, a)) for a in args), C(None))
            return [(st, C(None))]
        if last == 'ParseProcedureFile':
            out = []
            for s, b in forks(I, st, 'Parse', (const_of(I, st, args[0]),)):
                out += I.invoke(s, I.p.fn('oacdrv::MakeIncluded')[0], None, list(args), fr) if b else \
                    [(s, Exc(I.fresh('exc'), 'sup::oac_tree::ParseException'))]
            return out
        if last == 'VarSetup' and const_of(I, st, args[0]) == 0:
            return [(st, TRUE)]
        if last == 'VarTeardown':
            return [(st, C(None))]
        if name.startswith('oacdrv::') and last in ('VarSetup', 'VarActions'):
            return base(I, st, fr, node, name, recv, args)
        if last == 'As':
            return base(I, st, fr, node, name, recv, args)
        return leaf(I, st, fr, node, name, recv, args)
    return given


class Tree:
    def __init__(self, spec):
        self.type, self.attrs, self.kids = spec[0], dict(spec[1]), [Tree(k) for k in spec[2]]
        self.ws = None


def find(tops, path):
    first, _, rest = path.partition('.')
    for t in tops:
        if t.attrs.get('name', '') == first:
            return t if not rest else find(t.kids, rest)
    return None


def place(t, source):
    ok = True
    for n, v in t.attrs.items():
        if v.startswith('$'):
            if v[1:] in source:
                t.attrs[n] = source[v[1:]]
            else:
                ok = False
    if ok and t.type.startswith('Include'):
        for n, v in source.items():
            if n not in DEFINED[t.type] + ('name', 'isRoot'):
                t.attrs.setdefault(n, v)
    for k in t.kids:
        ok = place(k, source) and ok
    return ok


INC = ('Mark', 'Parse', 'VarSetup', 'InnerSetup', 'InnerExec', 'SeenInt', 'VarWrite', 'SeenStatus')


def including(kind, ops, attrs):
    def script(s):
        loaded, ready = {}, {}

        def load(f):
            if f != 'dir/main.xml' and f not in loaded:
                if not s.ask('Parse', f):
                    raise Fails(4)
                loaded[f] = True

        def resolve(f):
            return f if f.startswith('/') or not f else 'dir/' + f

        def ws_setup(f):
            if f != 'dir/main.xml' and f not in ready:
                if not s.ask('VarSetup', 1):
                    raise Fails(3)
                ready[f] = True

        def setup(t, f):
            if t.type == 'Inner':
                if not s.ask('InnerSetup', t.attrs.get('name', ''), t.attrs.get('v', ''), f == 'dir/main.xml'):
                    raise Fails(2)
            elif t.type == 'Sequence':
                for k in t.kids:
                    setup(k, f)
            else:
                if ('file' if t.type == 'IncludeProcedure' else 'path') not in t.attrs:
                    raise Fails(2)
                g = resolve(t.attrs['file']) if 'file' in t.attrs else f
                load(g)
                tops = [Tree(x) for x in TOPS]
                path = t.attrs.get('path', '')
                c = find(tops, path) if path else tops[1]
                if c is None or not place(c, t.attrs):
                    raise Fails(2)
                if t.type == 'IncludeProcedure':
                    ws_setup(g)
                    t.ws = g
                if not t.kids:
                    t.kids = [c]
                setup(t.kids[0], g)

        def leaves(t, ws):
            if t.type == 'Inner':
                return [(t.attrs.get('name', ''), ws)]
            return [x for k in t.kids for x in leaves(k, ws if t.ws is None else t.ws)]

        me = Tree((kind, (), ()))
        for n, v in attrs:
            if n:
                me.attrs.setdefault(n, v)
        if any(v.startswith('$') for v in me.attrs.values()):
            raise AssertionError
        at, finished = 0, False
        for k, op in enumerate(ops):
            s.see('Mark', k)
            try:
                if op == 0:
                    if kind.startswith('Copy'):
                        if not {'file', 'inputVar', 'outputVar'} <= set(me.attrs):
                            raise Fails(2)
                        g = resolve(me.attrs['file'])
                        load(g)
                        ws_setup(g)
                    else:
                        setup(me, 'dir/main.xml')
                elif op == 1 and kind.startswith('Copy'):
                    if not finished:
                        finished = True
                        src, dst = (1, 0) if kind == 'CopyFromProcedure' else (0, 1)
                        if resolve(me.attrs['file']) == 'dir/main.xml':
                            src = dst = 0
                        result = 'FAILURE'
                        if me.attrs['inputVar'] == 'ab'[src] and s.ask('VarRead', src) and me.attrs['outputVar'] == 'ab'[dst] \
                                and s.ask('VarWrite', dst, held(src)):
                            result = 'SUCCESS'
                    s.see('SeenStatus', k, result)
                elif op == 1:
                    ls = leaves(me, 'dir/main.xml')
                    if at < len(ls):
                        s.see('InnerExec', ls[at][0], ls[at][1] == 'dir/main.xml')
                        at += 1
                    s.see('SeenStatus', k, 'SUCCESS' if at == len(ls) else s.ask('AnyStatus', k))
                else:
                    at, finished = 0, False
            except Fails as e:
                s.see('SeenInt', e.args[0], k)
                return
    return script


def include_jobs(thorough):
    jobs = []

    def job(name, kind, ops, attrs):
        eff = INC if kind.startswith('Copy') else tuple(e for e in INC if e not in ('SeenStatus', 'VarWrite'))
        jobs.append(('use', name, agrees(including(kind, ops, attrs), eff, '%s with %s: ' % (kind, ', '.join('%s=%r' % a for a in attrs))),
                     dict(extra=val_hook(program(tuple(ops) + (-1,), include_env(ops, list(attrs)))), max_time=60, opaque=(), deep=True)))
    paths = ('', 'x', 'y', 'y.p', 'y.q', 'y.r', 'y.s', 'y.t', 'y.t.u', 'y.t.p', 'y.none', 'x.p', 'z', 'z.p', 'none', '.x', 'y.', 'y/p')
    files = (None, 'sub.xml', '/abs/sub.xml', 'main.xml', '')
    extra = ((), (('par', '7'),), (('name', 'me'), ('par', '7'), ('v', 'no')))
    for path in paths:
        for f in files:
            for e in extra:
                attrs = ((('path', path),) if path else ()) + ((('file', f),) if f is not None else ()) + e
                if not thorough and f in ('', '/abs/sub.xml') and path not in ('', 'x'):
                    continue
                for name, kind in (('Includes', 'Include'), ('IncludesProcedure', 'IncludeProcedure')):
                    if path not in ('y', '') and e is extra[2] and not thorough:
                        continue
                    if not thorough and e and path in ('none', '.x', 'y.none', 'x.p', 'y/p'):
                        continue
                    job(name, kind, (0, 1, 1, 1, 1, 1, 2, 1), attrs)
    for e in extra:
        job('Includes', 'Include', (0, 0, 1, 1, 1, 1, 1), (('path', 'y'), ('file', 'sub.xml')) + e)
        job('IncludesProcedure', 'IncludeProcedure', (0, 0, 1, 1, 1, 1, 1), (('path', 'y'), ('file', 'sub.xml')) + e)
    for name, kind in (('CopiesFrom', 'CopyFromProcedure'), ('CopiesTo', 'CopyToProcedure')):
        for f in ('sub.xml', '/abs/sub.xml', 'main.xml'):
            for i, o in (('a', 'b'), ('b', 'a'), ('a', 'a'), ('c', 'a'), ('b', 'c')):
                job(name, kind, (0, 1, 1, 2, 1), (('file', f), ('inputVar', i), ('outputVar', o)))
        job(name, kind, (0,), (('file', 'sub.xml'), ('inputVar', 'a')))
        job(name, kind, (0,), (('inputVar', 'a'), ('outputVar', 'a')))
        job(name, kind, (0, 0, 1), (('file', 'sub.xml'), ('inputVar', 'b'), ('outputVar', 'a')))
    return jobs


@check('C38', rule='included-where-it-says',
       explain='For every file, path and attribute an including instruction may have, and whatever fails: the file is looked up relative to the '
               'including procedure and parsed once, the instruction at the path is cloned with its children, its placeholders get the values of '
               'the attributes, it is set up with the included procedure and runs in the workspace it should; missing files, paths and '
               'placeholders are reported by an exception. Copying between procedures reads and writes the variables it says.')
def c38(ctx):
    ctx.parallel(include_jobs(ctx.thorough))
