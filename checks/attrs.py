"""Attributes and their constraints: client programs against reference models."""
import itertools
from client import *
from valmodel import *
from checks import check
from checks.leaf import const_of
from checks.vars import agrees, trace

TYPES = ['StringType', 'BooleanType', 'Character8Type', 'SignedInteger8Type', 'UnsignedInteger8Type', 'SignedInteger16Type', 'UnsignedInteger16Type',
         'SignedInteger32Type', 'UnsignedInteger32Type', 'SignedInteger64Type', 'UnsignedInteger64Type', 'Float32Type', 'Float64Type', 'EmptyType']


def attr_env(ops, texts):
    """ops: constants for Op(k); texts: strings for Text(k)"""
    def given(I, st, fr, node, name, recv, args):
        if args is None:
            return None
        last = name.split('::')[-1]
        if name == 'oacdrv::Text':
            return [(st, C(texts[const_of(I, st, args[0])]))]
        if name == 'oacdrv::SeenValue':
            I.ev(st, 'drv', last, (I.norm(st, I.val(st, args[0])), C(desc(I, st, args[1]))), C(None))
            return [(st, C(None))]
        if not name.startswith(SUP):
            return None
        if name.endswith('JSONAnyValueParser::TypedParseString'):
            t = type_name(I, st, args[0]) or '?'
            v = const_of(I, st, args[1])
            key = ('g', 'parse', t, v)
            st.store[('g', 'lastparse')] = C((t, v))
            if key in st.store:
                I.ev(st, 'drv', 'ParseValue', (C(t), C(v)), st.store[key])
                return [(st, st.store[key])]
            out = []
            for s, b in forks(I, st, 'ParseValue', (t, v)):
                s.store[key] = C(b)
                out.append((s, C(b)))
            return out
        if name.endswith('JSONAnyValueParser::MoveAnyValue'):
            t, v = st.store[('g', 'lastparse')][1]
            return [(st, any_make(I, st, ('parsed', t, v), 'parsed'))]
        if last == 'GetTypeCode' and recv is not None and 'AnyValue::' in name:
            out = []
            for i, t in enumerate(list(CODES) + ['Struct', 'Array']):
                s = st.copy()
                I.ev(s, 'drv', 'Kind', (), C(t))
                out.append((s, ('e', SUP + 'TypeCode::' + CODES.get(t, t), i)))
            return out
        if last == 'ValuesToJSONString':
            return [(st, C('<json>'))]
        if last == 'As' and recv is not None:
            t = strip_t(node['a'][-1].get('t', '') if args else node.get('t', ''))
            out = []
            for b in (True, False) if 'bool' in t else ('<text>',) if 'string' in t else ():
                s = st.copy()
                if 'bool' in t:
                    I.ev(s, 'drv', 'IsTrue', (), C(b))
                if args:
                    I.write(s, args[0][1], C(b))
                out.append((s, TRUE if args else C(b)))
            return out or None
        if last == 'AnyTypeToJSONString':
            return [(st, C('<%s>' % type_name(I, st, args[0])))]
        return None
    return given


class Enc:
    """encodes a program: constants for Op, strings for Text"""

    def __init__(self):
        self.ops, self.texts = [], []

    def t(self, s):
        if s not in self.texts:
            self.texts.append(s)
        return self.texts.index(s)

    def con(self, c):
        k = c[0]
        if k == 'exists':
            self.ops += [0, self.t(c[1])]
        elif k == 'type':
            self.ops += [1, self.t(c[1]), TYPES.index(c[2])]
        elif k == 'not':
            self.ops += [5]
            self.con(c[1])
        else:
            self.ops += [{'xor': 2, 'or': 3, 'and': 4}[k]]
            self.con(c[1])
            self.con(c[2])

    def attrs(self, at):
        self.ops.append(len(at))
        for n, v in at:
            self.ops += [self.t(n), self.t(v)]


def parse(s, t, v):
    """the value a text denotes, or None"""
    if t == 'StringType':
        return ('lit', v)
    if t == 'BooleanType':
        return ('lit', v.lower() in ('true', 'yes', 'on'))
    if t == 'EmptyType':
        return None
    return ('parsed', t, v) if s.ask('ParseValue', t, v) else None


def find(at, n):
    for a, v in at:
        if a == n:
            return v
    return None


def holds(s, c, at):
    k = c[0]
    if k == 'exists':
        return find(at, c[1]) is not None
    if k == 'type':
        v = find(at, c[1])
        return v is not None and parse(s, c[2], v) is not None
    if k == 'not':
        return not holds(s, c[1], at)
    a, b = holds(s, c[1], at), holds(s, c[2], at)
    return {'xor': a != b, 'or': a or b, 'and': a and b}[k]


def text_of(c):
    k = c[0]
    if k == 'exists':
        return 'Exists(%s)' % c[1]
    if k == 'type':
        return 'Type of (%s) must be (<%s>)' % (c[1], c[2])
    if k == 'not':
        return 'Not (%s)' % text_of(c[1])
    return '(%s) %s (%s)' % (text_of(c[1]), k.upper(), text_of(c[2]))


def short_of(c):
    return c[1] if c[0] == 'exists' else '%s is %s' % (c[1], c[2]) if c[0] == 'type' else '!(%s)' % short_of(c[1]) if c[0] == 'not' \
        else '(%s %s %s)' % (short_of(c[1]), c[0], short_of(c[2]))


EFF = ('Mark', 'SeenBool', 'SeenInt', 'SeenText', 'SeenValue')


def ajob(rule, name, e, script, what, **kw):
    return (rule, name, agrees(script, EFF, what + ': '), dict(extra=val_hook(program(list(e.ops), attr_env(list(e.ops), list(e.texts)))),
                                                              max_time=60, opaque=(), deep=True, **kw))


LISTS = ([], [('a', '1')], [('b', 'x')], [('a', 'yes'), ('b', '')], [('b', '2'), ('a', '')], [('c', '1'), ('b', 'x'), ('d', ''), ('a', '3'), ('e', '')], [('aa', ''), ('c', ''), ('b', '7'), ('', 'a')])


def cjob(first, other, how):
    e = Enc()
    e.con(first)
    e.con(other)
    e.ops += [how, len(LISTS)]
    for at in LISTS:
        e.attrs(at)

    def script(s):
        f, o = (other, first) if how in (1, 2) else (None, other) if how == 4 else (other, other) if how == 5 else (first, other)
        for k, at in enumerate(LISTS):
            s.see('Mark', k)
            s.see('SeenBool', 2 * k, f is not None and holds(s, f, at))
            if how != 4:
                s.see('SeenBool', 2 * k + 1, holds(s, o, at))
        s.see('SeenText', 0, 'Empty constraint (always fails)' if f is None else text_of(f))
    return ajob('constraint', 'Constraints', e, script, 'constraint %s and %s, %s' % (
        short_of(first), short_of(other), ('as made', 'copied', 'moved', 'assigned to itself', 'moved away', 'overwritten by a copy')[how]))


@check('C32', rule='client programs against a reference model', explain='Trees of the six constraints, as made, copied, moved and assigned, validated against attribute lists for every outcome of parsing; results and representation equal those of the boolean expression they stand for.')
def c32(ctx):
    leaves = [('exists', 'a'), ('exists', 'b'), ('type', 'a', 'Float64Type'), ('type', 'b', 'StringType')]
    one = [('not', c) for c in leaves] + [(k, c, d) for k in ('xor', 'or', 'and') for c in leaves for d in leaves]
    two = [('not', c) for c in one[4:20:3]] + [(k, c, d) for k in ('xor', 'or', 'and') for c in (one[1], one[6], one[24], one[40]) for d in (leaves[0], one[9], one[33])]
    jobs = [cjob(c, ('exists', 'b'), 0) for c in leaves + one + two]
    some = leaves[:3] + one[:1] + one[5:52:11] + two[::5]
    for how in (1, 2, 3, 4, 5):
        jobs += [cjob(c, some[(i * 7 + how) % len(some)], how) for i, c in enumerate(some)]
    if ctx.thorough:
        jobs += [cjob(c, d, how) for c in some for d in some for how in range(6)]
    ctx.parallel(jobs)


LIT, VARNAME, BOTH = 0, 1, 2
ADD, SET, HAS, VALID, GET, INFO, DEFS, LIST, FORMAT = range(9)


def handler_script(defs, cons, ops):
    def script(s):
        known, at, failed = [], [], []
        for k, d in enumerate(defs):
            if any(x[0] == d[0] for x in known):
                s.see('SeenInt', 90, k)
            else:
                known.append(d)

        def of(n):
            for d in known:
                if d[0] == n:
                    return d
            return None

        def refers(d, v):
            return d is not None and (d[2] == VARNAME or d[2] == BOTH and v.startswith('@'))
        for k, (op, *a) in enumerate(ops):
            s.see('Mark', k)
            if op == ADD:
                new = find(at, a[0]) is None
                if new:
                    at.append((a[0], a[1]))
                s.see('SeenBool', 0, new)
            elif op == SET:
                if find(at, a[0]) is None:
                    at.append((a[0], a[1]))
                else:
                    at = [(n, a[1] if n == a[0] else v) for n, v in at]
            elif op == HAS:
                s.see('SeenBool', 2, find(at, a[0]) is not None)
                s.see('SeenText', 2, find(at, a[0]) or '')
            elif op == VALID:
                failed = ['Exists(%s)' % d[0] for d in known if d[3] and find(at, d[0]) is None]
                for n, v in at:
                    d = of(n)
                    if d is not None and not refers(d, v) and parse(s, d[1], v) is None:
                        failed.append('Type of (%s) must be (<%s>)' % (n, d[1]))
                failed += [text_of(c) for c in cons if not holds(s, c, at)]
                s.see('SeenBool', 3, not failed)
                for f in failed:
                    s.see('SeenText', 3, f)
            elif op == GET:
                v, d = find(at, a[0]), of(a[0])
                r = None if v is None else ('lit', v) if d is None else parse(s, d[1], v)
                s.see('SeenBool', 4, r is not None)
                if r is not None:
                    s.see('SeenValue', 4, r)
            elif op == INFO:
                v, d = find(at, a[0]), of(a[0])
                if v is None:
                    s.see('SeenInt', 5, 1)
                else:
                    s.see('SeenBool', 5, refers(d, v))
                    s.see('SeenText', 5, v[1:] if refers(d, v) and d[2] == BOTH else v)
            elif op == DEFS:
                for d in known:
                    s.see('SeenText', 6, d[0])
                    s.see('SeenBool', 6, bool(d[3]))
            elif op == LIST:
                for n, v in at:
                    s.see('SeenText', 7, n)
                    s.see('SeenText', 8, v)
            else:
                s.see('SeenText', 9, ''.join('\n' + f for f in failed))
                failed = []
    return script


def show_ops(ops):
    names = ('add', 'set', 'has', 'validate', 'get', 'info', 'definitions', 'list', 'format')
    return ', '.join(' '.join([names[o[0]]] + [repr(x) for x in o[1:]]) for o in ops)


def hjob(defs, cons, ops):
    e = Enc()
    e.ops.append(len(defs))
    for n, t, c, m in defs:
        e.ops += [e.t(n), TYPES.index(t), c, m]
    e.ops.append(len(cons))
    for c in cons:
        e.con(c)
    for o in ops:
        e.ops += [o[0]] + ([e.t(x) for x in o[1:]] or [0])
    e.ops.append(-1)
    what = 'with definitions %s%s: %s' % (', '.join('%s:%s%s%s' % (n, t, ('', ' variable', ' both')[c], ' mandatory' * m) for n, t, c, m in defs) or 'none',
                                          ''.join(', constraint ' + short_of(c) for c in cons), show_ops(ops))
    return ajob('attributes', 'Handler', e, handler_script(defs, cons, ops), what)


def parse_job(t, text):
    e = Enc()
    e.ops.append(TYPES.index(t))
    e.t(text)

    def script(s):
        r = parse(s, t, text)
        s.see('SeenBool', 0, r is not None)
        if r is not None:
            s.see('SeenValue', 0, r)
    return ajob('parsing', 'ParseText', e, script, 'text %r as %s' % (text, t))


def format_job():
    def script(s):
        kind = [v for n, a, v, _ in s.tr if n == 'Kind']
        kind = kind[0] if kind else None
        s.see('SeenBool', 0, kind in TYPES and kind != 'EmptyType')
        if kind == 'BooleanType':
            s.see('SeenText', 0, 'true' if s.ask('IsTrue') else 'false')
        elif kind == 'StringType':
            s.see('SeenText', 0, '<text>')
        elif kind in TYPES and kind != 'EmptyType':
            s.see('SeenText', 0, '<json>')
    return ajob('formatting', 'FormatValue', Enc(), script, 'text of an arbitrary value')


IADD, ISET, IADDS, IPLACE, ILIST, IHAS, ISETUP = range(7)


def instr_job(defs, ops):
    e = Enc()
    e.ops.append(len(defs))
    for n, m in defs:
        e.ops += [e.t(n), m]
    for o in ops:
        e.ops.append(o[0])
        if o[0] in (IADDS, IPLACE):
            e.attrs(o[1])
        else:
            e.ops += [e.t(x) for x in o[1:]]
    e.ops.append(-1)

    def script(s):
        at = []

        def add(n, v):
            if find(at, n) is not None:
                return False
            at.append([n, v])
            return True
        for k, (op, *a) in enumerate(ops):
            s.see('Mark', k)
            if op == IADD:
                s.see('SeenBool', 0, add(*a))
            elif op == ISET:
                hit = [x for x in at if x[0] == a[0]]
                for x in hit:
                    x[1] = a[1]
                s.see('SeenBool', 1, bool(hit))
            elif op == IADDS:
                s.see('SeenBool', 2, all([add(n, v) for n, v in a[0]]))
            elif op == IPLACE:
                ok = True
                for x in at:
                    if x[1].startswith('$'):
                        v = find(a[0], x[1][1:])
                        if v is None:
                            ok = False
                        else:
                            x[1] = v
                s.see('SeenBool', 3, ok)
            elif op == ILIST:
                for n, v in at:
                    s.see('SeenText', 4, n)
                    s.see('SeenText', 5, v)
            elif op == IHAS:
                s.see('SeenBool', 5, find(at, a[0]) is not None)
                s.see('SeenText', 6, find(at, a[0]) or '')
                s.see('SeenBool', 6, a[0] in ('name', 'isRoot', 'showCollapsed') or any(n == a[0] for n, m in defs))
            else:
                bad = any(m and find(at, n) is None for n, m in defs)
                for n, v in at:
                    if n in ('isRoot', 'showCollapsed') and not any(n == d for d, _ in defs):
                        parse(s, 'BooleanType', v)
                s.see('SeenInt', 6, 0 if bad else 1)
    what = 'instruction with definitions %s: %s' % (', '.join(n + ' mandatory' * m for n, m in defs) or 'none', ', '.join(' '.join(
        [('add', 'set', 'add all', 'fill placeholders from', 'list', 'has', 'setup')[o[0]]] + [repr(x) for x in o[1:]]) for o in ops))
    return ajob('instruction', 'InstructionAttributes', e, script, what)


@check('C31', rule='client programs against a reference model', explain='Programs that define attributes of every category and type, add, set, validate and read them, and fill placeholders, for every outcome of parsing; conversion of texts to values and back for every type.')
def c31(ctx):
    jobs = []
    texts = ('', 'true', 'TRUE', 'True', 'yes', 'YeS', 'on', 'ON', 'false', 'no', 'off', 'tru', 'truee', ' true', 'true ', 'oui', '1', '0', '@x', '{"a":1}')
    for t in TYPES:
        for x in texts if t in ('BooleanType', 'StringType') or ctx.thorough else ('', '1', 'true', '@x'):
            jobs.append(parse_job(t, x))
    F, S, B, I = 'Float64Type', 'StringType', 'BooleanType', 'SignedInteger32Type'
    probe = [(GET, 'a'), (INFO, 'a'), (GET, 'b'), (INFO, 'b'), (VALID,), (FORMAT,), (FORMAT,)]
    values = ('', '1', '@v', '@', 'v', 'a@')
    for t in (F, S, B, 'EmptyType'):
        for c in (LIT, VARNAME, BOTH):
            for m in (0, 1):
                for v in values:
                    jobs.append(hjob([('a', t, c, m)], [], [(ADD, 'a', v)] + probe))
                jobs.append(hjob([('a', t, c, m)], [], probe))
                jobs.append(hjob([('a', t, c, m), ('b', F, LIT, 1)], [], [(ADD, 'b', 'x'), (ADD, 'z', '1'), (GET, 'z'), (INFO, 'z')] + probe))
                jobs.append(hjob([('b', S, LIT, 1 - m), ('a', t, c, m)], [('xor', ('exists', 'a'), ('exists', 'b')), ('type', 'b', F)], [(ADD, 'b', '3'), (VALID,), (ADD, 'a', '@q'), (VALID,), (FORMAT,)]))
    rng = [('a', F, LIT, 0), ('b', F, BOTH, 1), ('a', S, VARNAME, 1), ('c', S, VARNAME, 1)]
    jobs.append(hjob(rng, [], [(DEFS,), (VALID,), (ADD, 'a', '1'), (ADD, 'b', '@1'), (ADD, 'c', 'v'), (VALID,), (INFO, 'a'), (INFO, 'b'), (INFO, 'c'), (LIST,)]))
    jobs.append(hjob([], [], [(ADD, 'a', '@1'), (INFO, 'a'), (GET, 'a'), (VALID,), (INFO, 'b'), (GET, 'b'), (DEFS,)]))
    names = ('a', 'b', '', 'aa')
    for x, y in itertools.product(names, names):
        jobs.append(hjob([('a', S, LIT, 0)], [], [(ADD, x, '1'), (ADD, y, '2'), (HAS, x), (HAS, y), (HAS, 'a'), (LIST,), (SET, x, '3'), (SET, 'b', '4'), (LIST,), (HAS, 'b'), (ADD, 'b', '5'), (LIST,)]))
    jobs.append(hjob([('a', F, LIT, 1), ('b', F, LIT, 0), ('c', I, BOTH, 1), ('d', F, LIT, 1)], [('exists', 'e'), ('exists', 'f')], [(ADD, 'b', 'x'), (ADD, 'c', 'y'), (ADD, 'a', 'z'), (VALID,), (FORMAT,)]))
    jobs.append(hjob([('a', F, LIT, 1)], [('not', ('exists', 'b'))], [(VALID,), (ADD, 'a', '1'), (VALID,), (SET, 'a', 'x'), (VALID,), (SET, 'b', 'y'), (VALID,), (FORMAT,), (VALID,)]))
    jobs.append(format_job())
    for x, y in itertools.product(('a', 'b', ''), ('a', 'b', 'c')):
        jobs.append(instr_job([('a', 1), ('b', 0)], [(IADD, x, '1'), (IADD, y, '2'), (ISET, 'a', '3'), (ILIST,), (IADDS, [('b', '4'), ('d', '5'), ('a', '6')]), (ILIST,),
                                                      (IHAS, x), (IHAS, 'b'), (IHAS, 'd'), (ISETUP,), (ISET, y, '7'), (ILIST,)]))
    for v in ('$x', '$', 'x', 'a$x', '$y', '$$x', '$z'):
        for src in ([('x', '1'), ('y', '$x')], [('', 'e'), ('x', '$z'), ('$x', 'd')], [], [('z', ''), ('y', '2')]):
            jobs.append(instr_job([], [(IADD, 'p', v), (IADD, 'q', '$x'), (IADD, 'r', 'k'), (IPLACE, src), (ILIST,), (IPLACE, src), (ILIST,)]))
    jobs.append(instr_job([('a', 1)], [(ISETUP,), (IADD, 'a', ''), (ISETUP,)]))
    ctx.parallel(jobs)
