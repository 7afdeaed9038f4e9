"""Procedures made from trees of XML data, and registries of types."""
from client import *
import itertools
from valmodel import *
from checks import check
from checks.trees import observed, unlike, see, sections
from checks.vars import trace, txt
from checks.leaf import const_of

KINDS = ('Sequence', 'Inverter', 'Succeed', 'Unknown', 'Workspace', 'Plugin', 'RegisterType', 'RegisterType', 'RegisterType', 'RegisterType',
         'Local', 'Local', 'Local', 'Unknown', 'File', 'Local')
SEQ, INV, LEAF, UNKNOWN, WS, PLUGIN, JTYPE, JFILE, BOTH, NONE, LOCAL, NAMELESS, TWIN, UNKNOWN2, FILE, EMPTYNAME = range(16)


def node(k, kind):
    """type, attributes and content of node k"""
    t = KINDS[kind]
    if t in ('Sequence', 'Inverter', 'Succeed', 'Unknown'):
        attrs = (('name', 'i%d' % k), ('x', '$v%d' % k)) if kind != UNKNOWN2 else (('name', 'u%d' % k),)
    elif t in ('Local', 'File'):
        name = {NAMELESS: (), EMPTYNAME: (('name', ''),), TWIN: (('name', 'twin'),)}.get(kind, (('name', 'var%d' % k),))
        attrs = (('type', 't%d' % k),) + name + (('value', ''),)
    elif t == 'RegisterType':
        attrs = {JTYPE: (('jsontype', 'type%d' % k),), JFILE: (('jsonfile', 'file%d' % k),), BOTH: (('jsonfile', 'f'), ('jsontype', 't')), NONE: ()}[kind]
    else:
        attrs = ()
    return t, attrs, 'plugin%d' % k if t == 'Plugin' else ''


class Refused(Exception):
    """ends of the run that report it: 9 a ParseException, 8 an InvalidOperationException"""
    ends = (9,)


class Twice(Refused):
    ends = (8, 9)


class Data:
    def __init__(self, k, spec):
        self.k, (self.type, self.attrs, self.content), self.kids = k, spec, []


def build(root, nodes):
    """nodes: (parent, kind) of each"""
    ds = [Data(0, root)]
    for k, (p, kind) in enumerate(nodes, 1):
        ds.append(Data(k, node(k, kind)))
        ds[p].kids.append(ds[k])
    return ds


ROOTS = {0: ('Procedure', (('tickTimeout', '0.5'), ('name', 'proc')), ''), 1: ('Sequence', (), ''), 2: ('Procedure', (), '')}


def instruction(d):
    if d.type not in ('Sequence', 'Inverter', 'Succeed'):
        raise Refused()
    if d.type == 'Succeed' and d.kids or d.type == 'Inverter' and len(d.kids) > 1:
        raise Refused()
    out = [see('SeenText', 10, d.type)]
    for n, v in d.attrs:
        out += [see('SeenText', 11, n), see('SeenText', 12, v)]
    out.append(see('SeenInt', 10, len(d.kids)))
    for c in d.kids:
        out += instruction(c)
    return out


def procedure(root, filename):
    out = [see('SeenText', 1, filename)]
    attrs = dict(root.attrs)
    for n in ('name', 'tickTimeout', 'other'):
        if n in attrs:
            out += [see('SeenText', 2, n), see('SeenText', 3, attrs[n])]
    plugins, types, tops, variables = [], [], [], []
    for c in root.kids:
        if c.type == 'Plugin':
            plugins.append(c.content)
        elif c.type == 'RegisterType':
            if len(c.attrs) != 1:
                raise Refused()
            types.append((c.attrs[0][0] == 'jsonfile', c.attrs[0][1]))
        elif c.type == 'Workspace':
            for v in c.kids:
                name = dict(v.attrs).get('name', '')
                if v.type not in ('Local', 'File') or not name:
                    raise Refused()
                if any(name == x[1] for x in variables):
                    raise Twice()
                variables.append((v.type, name, v.attrs))
        else:
            tops.append(instruction(c))
    out += [see('SeenText', 4, p) for p in plugins]
    for isfile, text in types:
        out += [see('SeenBool', 5, isfile), see('SeenText', 5, text)]
    out += sum(tops, [])
    return out, variables


def same_procedure(have, want, variables):
    """the order of the variables, in the workspace and of their attributes, is free"""
    i = next((j for j, e in enumerate(have) if e[1][0] >= 20), len(have))
    bad = unlike(have[:i], want)
    if bad:
        return bad
    names = sorted(e[1][1] for e in have[i:] if e[1][0] == 24)
    found, cur = [], None
    for e in have[i:]:
        if e[1][0] == 20:
            cur = [e[1][1], None, []]
            found.append(cur)
        elif e[1][0] == 21:
            cur[1] = e[1][1]
        elif e[1][0] == 22:
            cur[2].append([e[1][1], None])
        elif e[1][0] == 23:
            cur[2][-1][1] = e[1][1]
    got = sorted((t, n, tuple(sorted(tuple(a) for a in at))) for t, n, at in found)
    exp = sorted((t, n, tuple(sorted(at))) for t, n, at in variables)
    if got != exp:
        return 'variables %s instead of %s' % (got, exp)
    if names != sorted(v[1] for v in variables):
        return 'the workspace names %s' % names


def parse_env(root, nodes):
    ds = build(root, nodes)

    def given(I, st, fr, nd, name, recv, args):
        if args is None:
            return None
        last = name.split('::')[-1]
        if last in ('NodeType', 'AttrName', 'AttrValue', 'Content', 'HasAttr', 'HasContent') and name.startswith('oacdrv::'):
            d = ds[const_of(I, st, args[0])]
            if last == 'NodeType':
                return [(st, C(d.type))]
            if last == 'Content':
                return [(st, C(d.content))]
            if last == 'HasContent':
                return [(st, C(bool(d.content)))]
            i = const_of(I, st, args[1])
            if last == 'HasAttr':
                return [(st, C(i < len(d.attrs)))]
            return [(st, C(d.attrs[i][last == 'AttrValue']))]
        if last == 'LoadLibrary' or last == 'LoadPlugin':
            I.ev(st, 'drv', 'Loaded', (C(const_of(I, st, args[0])),), C(None))
            return [(st, C(None))]
        if last == 'TreeDataFromFile':
            out = []
            for s, b in forks(I, st, 'FromFile', (const_of(I, st, args[0]),)):
                out += I.invoke(s, I.p.fn('oacdrv::MakeData')[0], None, [], fr) if b else [(s, NULL)]
            return out
        if last == 'TreeDataToString':
            out = []
            for s, v in I.invoke(st, I.p.fn('oacdrv::CopyData')[0], None, [args[0]], fr):
                if isinstance(v, Exc):
                    out.append((s, v))
                else:
                    s.store[('g', 'kept')] = v
                    s.temps = tuple(x for x in s.temps if x != v)
                    out.append((s, C('text')))
            return out
        if last == 'TreeDataFromString':
            out = []
            for s, b in forks(I, st, 'FromString', (const_of(I, st, args[0]),)):
                out += [(s, s.store[('g', 'kept')])] if b else [(s, NULL)]
            return out
        return None
    return given


def as_written(root, nodes):
    ds = build(ROOTS[root], nodes)
    what = '%s with %s: ' % (ds[0].type, ', '.join('%s(%s) below %d' % (ds[k].type, ','.join(x[0] for x in ds[k].attrs), p) for k, (p, _) in enumerate(nodes, 1)) or 'nothing')
    plugins = [c.content for c in ds[0].kids if c.type == 'Plugin']
    try:
        if ds[0].type != 'Procedure':
            raise Refused()
        want, variables = procedure(ds[0], 'dir/file.xml')
        again, _ = procedure(ds[0], '')
    except Refused as e:
        want, ends = None, e.ends
    fine = want is not None or all(len(c.attrs) == 1 for c in ds[0].kids if c.type == 'RegisterType') and ds[0].type == 'Procedure'

    def pred(o):
        if o.kind != 'ret':
            return '%sends with %s %s' % (what, o.kind, o.cls or show(o.val))
        tr = trace(o)
        read = [e for e in tr if e[0] == 'FromFile']
        if [e[1] for e in read] != [('dir/file.xml',)]:
            return what + 'the file is not read once, by its name'
        end = tr[-1][1][0] if tr[-1][0] == 'Mark' else None
        sec = sections([e[:2] for e in tr])
        if not read[0][2]:
            return None if end == 9 and 0 not in sec else what + 'a file that cannot be read is not reported'
        loaded = [e[1][0] for e in tr[:next((i for i, e in enumerate(tr) if e[0] == 'Mark'), len(tr))] if e[0] == 'Loaded']
        if fine and loaded != plugins:
            return '%sthe plugins %s are loaded instead of %s' % (what, loaded, plugins)
        if want is None:
            return None if end in ends and 0 not in sec else what + 'accepted although it is not a procedure'
        if 0 not in sec:
            return what + 'refused'
        bad = same_procedure([e for e in sec[0] if e[0] != 'FromString'], want, variables)
        if bad:
            return what + bad
        second = [e for e in tr if e[0] == 'FromString']
        if not second or second[0][1] != ('text',):
            return what + 'the text is not parsed'
        if not second[0][2]:
            return None if end == 9 else what + 'a text that cannot be read is not reported'
        if 2 not in sec:
            return what + 'what was written is refused'
        bad = same_procedure(sec[2], again, variables)
        return bad and '%swritten and read again: %s' % (what, bad)
    return pred


def shapes(thorough):
    yield 1, ()
    for r in (0, 2):
        yield r, ()
    for kind in range(16):
        yield 0, ((0, kind),)
    for a, b in itertools.product(range(16), repeat=2):
        yield 0, ((0, a), (0, b))
        yield 0, ((0, a), (1, b))
    n = 0
    for kinds in itertools.product((SEQ, INV, LEAF, UNKNOWN, WS, PLUGIN, JTYPE, JFILE, LOCAL, TWIN, FILE), repeat=3):
        for parents in itertools.product((0,), (0, 1), (0, 1, 2)):
            if any(p and kinds[p - 1] in (LEAF, UNKNOWN, PLUGIN, JTYPE, JFILE, LOCAL, TWIN, FILE) for p in parents):
                continue
            if any((kinds[k] in (LOCAL, TWIN, FILE)) != (p > 0 and kinds[p - 1] == WS) for k, p in enumerate(parents)):
                continue
            n += 1
            if thorough or n % 6 == 0:
                yield 0, tuple(zip(parents, kinds))
    for nodes in (((0, WS), (1, TWIN), (0, SEQ), (0, WS), (4, TWIN)), ((0, WS), (1, LOCAL), (0, SEQ), (0, WS), (4, FILE)), ((0, SEQ), (1, INV), (2, SEQ), (3, LEAF), (1, LEAF)),
                  ((0, UNKNOWN), (0, PLUGIN), (0, PLUGIN)), ((0, PLUGIN), (0, JFILE), (0, PLUGIN), (0, JTYPE), (0, LEAF), (0, SEQ), (6, LEAF), (0, WS), (8, LOCAL))):
        yield 0, nodes


NAMES = {'compound': ('Choice', 'Fallback', 'ParallelSequence', 'ReactiveFallback', 'ReactiveSequence', 'Sequence', 'UserChoice'),
         'decorator': ('Async', 'For', 'ForceSuccess', 'Include', 'IncludeProcedure', 'Inverter', 'Listen', 'Repeat'),
         'leaf': ('AddElement', 'AddMember', 'Condition', 'CopyFromProcedure', 'CopyToProcedure', 'Copy', 'Decrement', 'Equals', 'Fail', 'GreaterThan', 'GreaterThanOrEqual',
                  'Increment', 'Input', 'LessThan', 'LessThanOrEqual', 'Log', 'Message', 'Output', 'ResetVariable', 'Succeed', 'UserConfirmation', 'VarExists',
                  'Wait', 'WaitForVariable', 'WaitForVariables')}


def built_in(o):
    tr, bad = observed(o)
    if bad:
        return bad
    cat = {'leaf': 0, 'decorator': 1, 'compound': 2}
    want = {n: cat[k] for k, v in NAMES.items() for n in v}
    seen = [e[1][1] for e in tr if e[0] == 'SeenText' and e[1][0] == 0]
    if sorted(seen) != sorted(want):
        return 'registered are %s beyond and not %s' % (sorted(set(seen) - set(want)), sorted(set(want) - set(seen)))
    exp = []
    for n in seen:
        exp += [see('SeenText', 0, n), see('SeenText', 1, n), see('SeenInt', 1, want[n]), see('SeenBool', 1, True)]
    vs = [e[1][1] for e in tr if e[0] == 'SeenText' and e[1][0] == 2]
    if sorted(vs) != ['File', 'Local']:
        return 'registered variables are %s' % vs
    for n in vs:
        exp += [see('SeenText', 2, n), see('SeenText', 3, n), see('SeenBool', 3, True)]
    return unlike(tr, exp)


def registering(ops):
    names = ('A', 'B', 'AB')
    pairs = [(k, ops[2 * k], names[ops[2 * k + 1]]) for k in range(len(ops) // 2)]
    what = ', '.join('%s %s' % ('register' if op == 0 else 'create', n) for _, op, n in pairs) + ': '
    have, want = {}, []
    for k, op, n in pairs:
        want.append(see('Mark', k))
        ok = (n not in have) == (op == 0)
        if ok and op == 0:
            have[n] = k
        if not ok:
            want += [see('SeenInt', 2, k), see('SeenInt', 3, k)]
        elif op == 0:
            want += [see('SeenBool', 0, True), see('SeenBool', 0, True)]
        else:
            want += [see('SeenText', 1, ('first', 'second', 'third')[have[n]]), see('SeenInt', 1, have[n])]
        for x in names:
            want += [see('SeenBool', 4, x in have), see('SeenBool', 5, x in have)]

    def pred(o):
        tr, bad = observed(o)
        if bad:
            return what + bad
        i = tr.index(see('Mark', 99)) if see('Mark', 99) in tr else len(tr)
        bad = unlike(tr[:i], want)
        if bad:
            return what + bad
        for kind in (6, 7):
            listed = sorted(e[1][1] for e in tr[i:] if e[0] == 'SeenText' and e[1][0] == kind)
            if listed != sorted(have):
                return '%slisted are %s' % (what, listed)
    return pred


@check('C34', rule='procedure-as-written',
       explain='For every tree of XML elements up to a size: the procedure made from it has the instructions, variables, attributes, plugins and '
               'types written there, in that order, or a ParseException is thrown; plugins are loaded first; what is written from a procedure '
               'makes the same procedure again.')
def c34(ctx):
    jobs = []
    for root, nodes in shapes(ctx.thorough):
        ops = tuple(p for p, _ in nodes) + (-1,)
        jobs.append(('as-written', 'ParseAndWrite', as_written(root, nodes), dict(extra=val_hook(program(ops, parse_env(ROOTS[root], nodes))), max_time=60, opaque=(), deep=True)))
    ctx.parallel(jobs)


@check('C33', rule='type-of-that-name',
       explain='Every built-in instruction and variable is registered once, under its own name, and what is created has that type and category; '
               'for every sequence of operations a registry creates what was registered under the name and refuses a second registration and unknown names.')
def c33(ctx):
    jobs = [('built-in', 'BuiltIn', built_in, dict(max_time=100, opaque=(), deep=True, extra=val_hook(program((-1,), parse_env(ROOTS[0], ())))))]
    for n in range(1, 4):
        for ops in itertools.product(itertools.product((0, 1), (0, 1, 2)), repeat=n):
            flat = sum(ops, ())
            if n < 3 or ctx.thorough or 2 in flat[1::2] or flat[0] == 0:
                jobs.append(('registry', 'Registering', registering(flat), dict(max_time=60, opaque=(), deep=True, extra=val_hook(program(flat + (-1,), parse_env(ROOTS[0], ()))))))
    ctx.parallel(jobs)
