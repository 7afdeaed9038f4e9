"""Leaf instructions: client programs against reference models."""
from client import *
from valmodel import *
from checks import check
from checks.core import lockset
from checks.jobs import JSim, Missing
from checks.vars import agrees, trace, follows, VSim

SUP = 'sup::dto::'


def held(k):
    return ('held', k)


def const_of(I, st, a):
    a = I.norm(st, I.val(st, a))
    return a[1] if a[0] == 'c' else show(a)


def num_of(I, st, a):
    a = I.norm(st, I.val(st, a))
    return a[2] if a[0] == 'e' else a[1] if a[0] == 'c' else show(a)


def leaf_env(attrs, texts=None, numbers=None, halts=0, empties=False):
    """attrs: list of (name, value); texts/numbers: descriptor -> text/number it converts to"""
    texts, numbers = texts or {}, numbers or {}

    def given(I, st, fr, node, name, recv, args):
        if args is None:
            return None
        last = name.split('::')[-1]
        if name in ('oacdrv::AttrName', 'oacdrv::AttrValue'):
            k = const_of(I, st, args[0])
            return [(st, C(attrs[k][last == 'AttrValue'] if k < len(attrs) else ''))]
        if name.startswith('oacdrv::'):
            if last == 'VarRead':
                k = const_of(I, st, args[0])
                out = []
                for s, b in forks(I, st, last, (k,)):
                    for s2, e in (forks(I, s, 'VarEmpty', (k,)) if b and empties else [(s, False)]):
                        if b:
                            set_desc(I, s2, args[1], 'EMPTY' if e else held(k))
                        out.append((s2, C(b)))
                return out
            if last == 'VarWrite':
                return [(s, C(b)) for s, b in forks(I, st, last, (const_of(I, st, args[0]), desc(I, st, args[1])))]
            if last == 'VarAvailable':
                return [(s, C(b)) for s, b in forks(I, st, last, (const_of(I, st, args[0]),))]
            if last in ('VarSetup', 'VarActions'):
                if last == 'VarSetup':
                    I.ev(st, 'drv', last, (C(const_of(I, st, args[0])),), C(None))
                return [(st, TRUE if last == 'VarSetup' else C(0))]
            if last == 'Logged' and 'Instruction ' in str(const_of(I, st, args[1]))[:18]:
                I.ev(st, 'drv', 'Complaint', (), C(None))
                return [(st, C(None))]
            if last == 'Logged':
                I.ev(st, 'drv', last, (C(num_of(I, st, args[0])), C(const_of(I, st, args[1]))), C(None))
                return [(st, C(None))]
            if last == 'Put':
                return [(s, C(b)) for s, b in forks(I, st, last, (desc(I, st, args[0]), const_of(I, st, args[1])))]
            return None
        if last == 'TimingAccuracyNs':
            return [(st, C(50000000))]
        if last == 'GetNanosecsSinceEpoch':
            def num(s, k, d):
                v = s.store.get(('g', 'time.' + k))
                return d if v is None else v[1]
            out = []
            for adv in (0, 1):
                if num(st, 'stays' if not adv else 'jumps', 0) >= (3 if not adv else 4):
                    continue
                s = st.copy()
                n = num(s, 'now', 10**18) + adv * 10**9
                s.store[('g', 'time.now')] = C(n)
                k = 'jumps' if adv else 'stays'
                s.store[('g', 'time.' + k)] = C(num(s, k, 0) + 1)
                I.ev(s, 'drv', 'Now', (), C(n))
                out.append((s, C(n)))
            return out
        if last == 'sleep_for':
            n = sum(1 for e in flat(st.log) if e[0] == 'drv' and e[1] == 'HaltArrives')
            s0 = st.copy()
            I.ev(s0, 'drv', 'Sleep', (), C(None))
            out = [(s0, C(None))]
            if n < halts:
                s = st.copy()
                I.ev(s, 'drv', 'Sleep', (), C(None))
                I.ev(s, 'drv', 'HaltArrives', (), C(None))
                out += [(s2, C(None)) for s2, r in I.invoke(s, I.p.fn('oacdrv::HaltArrives')[0], None, [], fr)]
            return out
        if not name.startswith(SUP):
            return None
        if name.endswith('JSONAnyValueParser::TypedParseString'):
            t = (type_name(I, st, args[0]) or '?')[:-4]
            v = const_of(I, st, args[1])
            key = ('g', 'parse', t, v)
            st.store[('g', 'lastparse')] = C('%s %s' % (t, v))
            if key in st.store:
                I.ev(st, 'drv', 'ParseValue', (C(t), C(v)), st.store[key])
                return [(st, st.store[key])]
            out = []
            for s, b in forks(I, st, 'ParseValue', (t, v)):
                s.store[key] = C(b)
                out.append((s, C(b)))
            return out
        if name.endswith('JSONAnyValueParser::MoveAnyValue'):
            t, _, v = st.store[('g', 'lastparse')][1].partition(' ')
            return [(st, any_make(I, st, ('parsed', t, v), 'parsed'))]
        if last in ('operator==', 'operator!=') and (recv is not None or len(args) == 2):
            a, b = [recv] + list(args) if recv is not None else args
            da, db = desc(I, st, a), desc(I, st, b)
            what = 'SameType' if 'AnyType::' in name or isinstance(da, tuple) and da[0] in ('type', 'elem') else 'Same'
            return [(s, C(r == (last == 'operator=='))) for s, r in forks(I, st, what, (da, db))]
        if last == 'Compare' and len(args) == 2:
            out = []
            for i, r in enumerate(('Equivalent', 'Less', 'Greater', 'Unordered')):
                s = st.copy()
                v = ('e', SUP + 'CompareResult::' + r, i)
                I.ev(s, 'drv', 'Compare', (('c', desc(I, st, args[0])), ('c', desc(I, st, args[1]))), C(r))
                out.append((s, v))
            return out
        if last in ('Increment', 'Decrement') and len(args) == 1:
            out = []
            for s, b in forks(I, st, last, (desc(I, st, args[0]),)):
                if b:
                    set_desc(I, s, args[0], (last, desc(I, st, args[0])))
                out.append((s, C(b)))
            return out
        if last in ('IsArrayValue', 'IsStructValue'):
            return [(s, C(b)) for s, b in forks(I, st, last, (desc(I, st, args[0]),))]
        if last in ('GetType', 'ElementType') and recv is not None:
            d = desc(I, st, recv)
            return [(st, any_make(I, st, ('type' if last == 'GetType' else 'elem', d), 'type'))]
        if last == 'GetTypeName':
            return [(st, C('typename'))]
        if last == 'AddElement' and recv is not None:
            d = desc(I, st, recv)
            e = desc(I, st, args[0])
            out = []
            for s, b in forks(I, st, last, (d, e)):
                if b:
                    set_desc(I, s, recv, ('added', d, e))
                out.append((s, recv if b else Exc(I.fresh('exc'), SUP + 'InvalidOperationException')))
            return out
        if last == 'AddMember' and recv is not None:
            d, n, e = desc(I, st, recv), const_of(I, st, args[0]), desc(I, st, args[1])
            out = []
            for s, b in forks(I, st, last, (d, n, e)):
                if b:
                    set_desc(I, s, recv, ('member', d, n, e))
                out.append((s, recv if b else Exc(I.fresh('exc'), SUP + 'InvalidOperationException')))
            return out
        if last == 'MemberNames' and recv is not None:
            out = []
            for s, b in forks(I, st, 'HasMember', (desc(I, st, recv),)):
                out.append((s, ('seq', (C('x'), C('m'), C('y')) if b else (C('x'), C('mm')), None, ())))
            return out
        if last == 'ValuesToJSONString':
            return [(st, C('<json of %s>' % (desc(I, st, args[0]),)))]
        if last == 'As' and recv is not None and len(args) == 1 and args[0][0] == 'ref':
            d = desc(I, st, recv)
            t = strip_t(node['a'][-1].get('t', '')) if node.get('a') else ''
            out = []
            if isinstance(d, tuple) and d[0] == 'lit':
                I.write(st, args[0][1], C(d[1]))
                return [(st, TRUE)]
            for s, b in forks(I, st, 'As', (d,)):
                if not b:
                    out.append((s, FALSE))
                elif 'string' in t:
                    I.write(s, args[0][1], C(texts.get(d, '<text of %s>' % (d,))))
                    out.append((s, TRUE))
                elif 'bool' in t:
                    for s2, b2 in forks(I, s, 'True', (d,)):
                        I.write(s2, args[0][1], C(b2))
                        out.append((s2, TRUE))
                else:
                    I.write(s, args[0][1], C(numbers.get(d, 0.0)))
                    out.append((s, TRUE))
            return out
        return None
    return given


VARS = {'a': 0, 'b': 1}
VAR, BOTH, LIT = 'var', 'both', 'lit'
# name, category, type, mandatory
DEFS = {
    'Comparison': (('leftVar', VAR, 'String', 1), ('rightVar', VAR, 'String', 1)),
    'Copy': (('inputVar', VAR, 'String', 1), ('outputVar', VAR, 'String', 1)),
    'Variable': (('varName', VAR, 'String', 1),),
    'AddMember': (('inputVar', VAR, 'String', 1), ('outputVar', VAR, 'String', 1), ('memberName', LIT, 'String', 1)),
    'Output': (('fromVar', VAR, 'String', 1), ('description', BOTH, 'String', 0)),
    'Message': (('text', BOTH, 'String', 1),),
    'Log': (('message', BOTH, 'String', 0), ('inputVar', VAR, 'String', 0), ('severity', BOTH, 'String', 0)),
    'Wait': (('timeout', BOTH, 'Float64', 0), ('blocking', BOTH, 'Boolean', 0)),
    'WaitForVariable': (('varName', VAR, 'String', 1), ('timeout', BOTH, 'Float64', 1), ('equalsVar', VAR, 'String', 0)),
    'WaitForVariables': (('timeout', BOTH, 'Float64', 1), ('varType', BOTH, 'String', 1)),
    'Input': (('outputVar', VAR, 'String', 1), ('description', BOTH, 'String', 0)),
    'Confirmation': (('description', BOTH, 'String', 1), ('okText', BOTH, 'String', 0), ('cancelText', BOTH, 'String', 0)),
    'Choice': (('description', BOTH, 'String', 0),),
    'None': (),
}


class No(Exception):
    """something the instruction needs is not there"""


class Leaf:
    """what a leaf instruction may do with its attributes and the workspace"""

    def __init__(self, sim, defs, attrs, texts=None, numbers=None, empties=False):
        self.empties = empties
        self.s, self.defs, self.attrs = sim, {d[0]: d for d in DEFS[defs]}, {}
        self.texts, self.numbers = texts or {}, numbers or {}
        for n, v in attrs:
            if n:
                self.attrs.setdefault(n, v)

    def refers(self, n):
        cat = self.defs[n][1] if n in self.defs else LIT
        v = self.attrs[n]
        return cat == VAR or cat == BOTH and v.startswith('@')

    def setup(self):
        bad = any(d[3] and n not in self.attrs for n, d in self.defs.items())
        for n, v in self.attrs.items():
            if n in self.defs and not self.refers(n) and self.defs[n][2] in ('Float64',):
                bad |= not self.parse(n, v)
        if 'message' in self.defs and not {'message', 'inputVar'} & set(self.attrs):
            bad = True
        return not bad

    def parse(self, n, v):
        return self.s.ask('ParseValue', self.defs[n][2], v)

    def read(self, name):
        s = self.s
        if not name:
            raise No
        var, _, field = name.partition('.')
        if var not in VARS:
            raise No
        k = VARS[var]
        if not s.ask('VarRead', k):
            raise No
        if self.empties and s.ask('VarEmpty', k):
            return 'EMPTY'
        if not field:
            return held(k)
        if not s.ask('HasField', held(k), field):
            raise No
        return ('field', held(k), field)

    def write(self, attr, value):
        s = self.s
        name = self.attrs[attr]
        if not name:
            raise No
        var, _, field = name.partition('.')
        if var not in VARS:
            raise No
        k = VARS[var]
        if field:
            if not s.ask('VarRead', k) or not s.ask('HasField', held(k), field) or not s.ask('Assign', ('field', held(k), field), value):
                raise No
            value = ('with', held(k), field, value)
        if not s.ask('VarWrite', k, value):
            raise No

    def get(self, attr):
        """value of an attribute; None if there is no such attribute"""
        if attr not in self.attrs:
            return None
        v = self.attrs[attr]
        if self.refers(attr):
            return self.read(v if self.defs[attr][1] == VAR else v[1:])
        t = self.defs[attr][2]
        if t == 'String':
            return ('lit', v)
        if t == 'Boolean':
            return ('lit', v.lower() in ('true', 'yes', 'on'))
        if not self.parse(attr, v):
            raise No
        return ('parsed', t, v)

    def conv(self, d):
        if not (isinstance(d, tuple) and d[0] == 'lit') and not self.s.ask('As', d):
            raise No

    def text(self, attr, default=''):
        d = self.get(attr)
        if d is None:
            return default
        self.conv(d)
        return d[1] if d[0] == 'lit' else self.texts.get(d, '<text of %s>' % (d,))

    def boolean(self, attr, default=False):
        d = self.get(attr)
        if d is None:
            return default
        self.conv(d)
        return d[1] if d[0] == 'lit' else self.s.ask('True', d)

    def number(self, attr, default=0.0):
        d = self.get(attr)
        if d is None:
            return default
        self.conv(d)
        return self.numbers.get(d, 0.0)


def once(defs, attrs, act, **env):
    """set up, execute once: succeeds exactly when act succeeds"""
    def script(s):
        s.see('VarSetup', 0)
        s.see('VarSetup', 1)
        m = Leaf(s, defs, attrs, **env)
        if not m.setup():
            return s.see('SeenInt', 9, 1)
        s.see('Mark', 0)
        try:
            r = act(m)
        except No:
            r = False
        s.see('SeenStatus', 0, 'FAILURE' if r is False else 'SUCCESS')
    return script


def compare_values(kind):
    def act(m):
        a = m.get('leftVar')
        b = m.get('rightVar')
        if kind == 'Equals':
            return m.s.ask('Same', a, b)
        r = m.s.ask('Compare', a, b)
        return r in {'GreaterThan': ('Greater',), 'GreaterThanOrEqual': ('Greater', 'Equivalent'), 'LessThan': ('Less',),
                     'LessThanOrEqual': ('Less', 'Equivalent')}[kind]
    return act


def do_copy(m):
    m.write('outputVar', m.get('inputVar'))


def step_by(how):
    def act(m):
        v = m.get('varName')
        if not m.s.ask(how, v):
            return False
        m.write('varName', (how, v))
    return act


def do_add_element(m):
    s = m.s
    e = m.get('inputVar')
    d = m.get('outputVar')
    if not s.ask('IsArrayValue', d) or not s.ask('SameType', ('elem', ('type', d)), ('type', e)) or not s.ask('AddElement', d, e):
        return False
    m.write('outputVar', ('added', d, e))


def do_add_member(m):
    s = m.s
    e = m.get('inputVar')
    d = m.get('outputVar')
    n = m.attrs['memberName']
    if not n or not s.ask('IsStructValue', d) or s.ask('HasMember', d) or not s.ask('AddMember', d, n, e):
        return False
    m.write('outputVar', ('member', d, n, e))


def do_reset_variable(m):
    n = m.attrs['varName']
    if n not in VARS:
        return False
    m.s.see('VarTeardown', VARS[n])
    m.s.see('VarSetup', VARS[n])


def do_condition(m):
    return m.boolean('varName')


def do_exists(m):
    m.get('varName')


def do_output(m):
    v = m.get('fromVar')
    t = m.text('description')
    return m.s.ask('Put', v, t)


def do_message(m):
    m.s.see('SeenText', 1, m.text('text'))


def ljob(name, ops, attrs, script, rule, names=None, **env):
    kw = {k: env.pop(k) for k in list(env) if k in ('max_time', 'max_states')}
    return (rule, name, agrees(script, names or EFFECTS, '%s with %s: ' % (name[4:], ', '.join('%s=%r' % a for a in attrs)), domains=DOMAINS),
            dict(extra=val_hook(program(ops, leaf_env(attrs, **env))), max_time=120, opaque=(), **kw))


EFFECTS = ('Mark', 'VarWrite', 'SeenInt', 'SeenStatus', 'SeenText', 'Put', 'Logged', 'VarTeardown', 'VarSetup')
DOMAINS = {'Compare': ('Equivalent', 'Less', 'Greater', 'Unordered')}


def do_log(m):
    levels = {'emergency': 0, 'alert': 1, 'critical': 2, 'error': 3, 'warning': 4, 'notice': 5, 'info': 6, 'debug': 7, 'trace': 8}
    sev = m.text('severity', 'info')
    if sev not in levels:
        return False
    t = m.text('message')
    v = m.get('inputVar')
    m.s.see('Logged', levels[sev], t + ('' if v is None else '<json of %s>' % (v,)))


WOBS = ('Mark', 'VarWrite', 'SeenInt', 'SeenStatus', 'SeenText', 'Put', 'VarTeardown')
NOT_DONE = ('NOT_STARTED', 'NOT_FINISHED', 'RUNNING')
INF = float('inf')


def waiting(kind, defs, ops, attrs, **env):
    def script(s):
        m = Leaf(s, defs, attrs, **env)
        if not m.setup():
            return s.see('SeenInt', 9, 1)
        # the clock as the instruction saw it
        segs, cur = {}, None
        for name, args, val, _ in s.tr:
            if name == 'Mark':
                cur = args[0]
                segs[cur] = []
            elif cur is not None and name in ('Now', 'HaltArrives', 'Sleep'):
                segs[cur].append((name, val))
        status, halted, finish, blocking = 'NOT_STARTED', False, None, False

        def init(seg):
            if kind == 'Wait':
                b = m.boolean('blocking')
            x = 0.0
            if 'timeout' in m.attrs:
                x = m.number('timeout')
            if not 0.0 <= x <= 9.2e9:
                raise No
            t0 = [v for n, v in seg if n == 'Now']
            return (t0[0] if t0 else 0) + round(x * 1e9), kind == 'Wait' and b

        def met():
            if kind == 'Wait':
                return None
            if kind == 'WaitForVariable':
                try:
                    v = m.get('varName')
                    v = None if v == 'EMPTY' else v
                except No:
                    v = None
                w = None
                if 'equalsVar' in m.attrs:
                    try:
                        w = m.get('equalsVar')
                    except No:
                        w = None
                    return v is not None and w is not None and s.ask('Same', v, w)
                return v is not None
            ok = [s.ask('VarAvailable', k) for k in ((0, 1) if m.attrs['varType'] == 'VarProbe' else ())]
            return all(ok)
        for k, op in enumerate(ops):
            s.see('Mark', k)
            seg = segs.get(k, [])
            if op == 0:
                try:
                    if status == 'NOT_STARTED':
                        finish, blocking = init(seg)
                        status = 'NOT_FINISHED'
                    if status in NOT_DONE and not halted:
                        c = met()
                        now = ([v for n, v in seg if n == 'Now'] or [0])[-1]
                        if any(n == 'HaltArrives' for n, v in seg):
                            names = [n for n, v in seg]
                            if 'Sleep' in names[names.index('HaltArrives'):]:
                                s.see('SeenStatus', k, 'halted without waiting on')
                            halted = True
                            status = 'FAILURE'
                        elif c:
                            status = 'SUCCESS'
                        elif now >= finish:
                            status = 'SUCCESS' if kind == 'Wait' else 'FAILURE'
                        else:
                            status = 'BLOCKS' if blocking else 'RUNNING'
                except No:
                    status = 'FAILURE'
            elif op == 1:
                halted = True
            else:
                status, halted, finish, blocking = 'NOT_STARTED', False, None, False
            s.see('SeenStatus', k, status)
    return script


def wjob(kind, defs, ops, attrs, halts=0, **env):
    return ('wait', 'Leaf%s%d' % (kind, len(ops)), agrees(waiting(kind, defs, ops, attrs, **env), WOBS, '%s with %s, after %s: ' % (
        kind, ', '.join('%s=%r' % a for a in attrs), ', '.join(('ExecuteSingle', 'Halt', 'Reset')[x] for x in ops))),
        dict(extra=val_hook(program(ops, leaf_env(attrs, halts=halts, **env))), max_time=120, opaque=(), unroll=kind == 'Wait', max_steps=1 << 40, max_states=40000, max_heads=40000))


TIMES = {'0': 0.0, '0.5': 0.5, '1': 1.0, '2.4': 2.4, 'big': 9.2e9, 'huge': 9.3e9, 'minus': -0.5, 'inf': INF, 'nan': float('nan')}


@check('C20', rule='client programs against a reference model', explain='The three waiting instructions under every answer of the variables and of the clock (time may stand still or pass between any two readings), for timeouts from attributes, variables, out of range or not a number, with halts and resets between executions and a halt during a blocking wait.')
def c20(ctx):
    numbers = {('parsed', 'Float64', t): v for t, v in TIMES.items()}
    for v in (0, 1):
        numbers[held(v)] = 1.0
    seqs = [(0, 0), (0, 0, 0), (0, 1, 0), (1, 0), (0, 2, 0), (0, 0, 2, 0)]
    jobs = []

    def wait(at, ops, halts=0):
        jobs.append(wjob('Wait', 'Wait', ops, at, halts, numbers=numbers))
    for ops in seqs:
        for t in TIMES:
            wait([('timeout', t)], ops)
        wait([('timeout', '@a')], ops)
        wait([], ops)
        for t in ('0', '1', '2.4', 'nan'):
            wait([('timeout', t), ('blocking', 'true')], ops, 1)
        wait([('timeout', '1'), ('blocking', '@b')], ops)
        wait([('timeout', '1'), ('blocking', 'false')], ops)
        for t in ('1', '0', 'nan', '@b'):
            jobs.append(wjob('WaitForVariable', 'WaitForVariable', ops, [('varName', 'a'), ('timeout', t)], numbers=numbers))
            jobs.append(wjob('WaitForVariables', 'WaitForVariables', ops, [('timeout', t), ('varType', 'VarProbe')], numbers=numbers))
        if len(ops) < 4 or ctx.thorough:
            jobs.append(wjob('WaitForVariable', 'WaitForVariable', ops, [('varName', 'a.f'), ('timeout', '1'), ('equalsVar', 'b')], numbers=numbers))
        jobs.append(wjob('WaitForVariables', 'WaitForVariables', ops, [('timeout', '1'), ('varType', 'Other')], numbers=numbers))
    jobs.append(wjob('WaitForVariable', 'WaitForVariable', (0, 0), [('varName', ''), ('timeout', '1')], numbers=numbers))
    jobs.append(wjob('WaitForVariable', 'WaitForVariable', (0, 0), [('varName', 'a'), ('timeout', '1'), ('equalsVar', '')], numbers=numbers))
    for at in ([('varName', 'a'), ('timeout', '1')], [('varName', 'a'), ('timeout', '1'), ('equalsVar', 'b')], [('varName', 'a'), ('timeout', '1'), ('equalsVar', 'a')]):
        jobs.append(wjob('WaitForVariable', 'WaitForVariable', (0, 0), at, numbers=numbers, empties=True))
    for at in ([('varName', 'a')], [('timeout', '1')], []):
        jobs.append(wjob('WaitForVariable', 'WaitForVariable', (0, 0), at, numbers=numbers))
    ctx.parallel(jobs)


NAMES = ('a', 'b', 'a.f', '', 'c', '.f', 'c.f')


def pairs(x, y, thorough):
    full = [(m, n) for m in NAMES for n in NAMES]
    some = [(m, n) for m in ('a', 'a.f', '') for n in ('b', 'b.f', 'a', 'c')] + [('c', 'a'), ('b', 'a'), ('b', '')]
    out = [[(x, m), (y, n)] for m, n in (full if thorough else some)]
    return out + [[(x, 'a')], [(y, 'a')], [], [(y, 'b'), (x, 'a')]]


@check('C21', rule='client programs against a reference model', explain='The comparison instructions for every combination of attributes (variable, field, unknown, empty, missing) and every outcome of reading and comparing.')
def c21(ctx):
    jobs = []
    for k in ('Equals', 'GreaterThan', 'GreaterThanOrEqual', 'LessThan', 'LessThanOrEqual'):
        for at in pairs('leftVar', 'rightVar', ctx.thorough):
            jobs.append(ljob('Leaf' + k, (0,), at, once('Comparison', at, compare_values(k)), 'comparison'))
    ctx.parallel(jobs)


@check('C19', rule='client programs against a reference model', explain='The leaf instructions that read, compute, write and report, for every combination of attributes and every outcome of reading, converting, changing and writing values: status, and what reached the workspace and the user interface.')
def c19(ctx):
    jobs = []

    def add(name, defs, at, act):
        jobs.append(ljob('Leaf' + name, (0,), at, once(defs, at, act), 'leaf'))
    for at in pairs('inputVar', 'outputVar', ctx.thorough):
        add('Copy', 'Copy', at, do_copy)
        add('AddElement', 'Copy', at, do_add_element)
        add('AddMember', 'AddMember', at + [('memberName', 'm')], do_add_member)
    for n in NAMES:
        add('Increment', 'Variable', [('varName', n)], step_by('Increment'))
        add('Decrement', 'Variable', [('varName', n)], step_by('Decrement'))
        add('ResetVariable', 'Variable', [('varName', n)], do_reset_variable)
        add('Condition', 'Variable', [('varName', n)], do_condition)
        add('VarExists', 'Variable', [('varName', n)], do_exists)
        for d in ('text', '@b', '@b.f', '@', '@c', ''):
            add('Output', 'Output', [('fromVar', n), ('description', d)], do_output)
        add('Output', 'Output', [('fromVar', n)], do_output)
    for d in ('text', '@a', '@a.f', '@', '@c', '', 'a'):
        add('Message', 'Message', [('text', d)], do_message)
    add('Message', 'Message', [], do_message)
    for sev in (None, 'emergency', 'alert', 'critical', 'error', 'warning', 'notice', 'info', 'debug', 'trace', 'Info', '', '@b', '@', 'infos'):
        for at in ([('message', 'hello')], [('inputVar', 'a')], [('message', '@a'), ('inputVar', 'b.f')], []):
            add('Log', 'Log', at + ([('severity', sev)] if sev is not None else []), do_log)
    add('Succeed', 'None', [], lambda m: True)
    add('Fail', 'None', [], lambda m: False)
    add('AddMember', 'AddMember', [('inputVar', 'a'), ('outputVar', 'b'), ('memberName', '')], do_add_member)
    ctx.parallel(jobs)
