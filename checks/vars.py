"""Variables and the workspace: client programs against reference models."""
from client import *
from valmodel import *
from checks import check
from checks.core import lockset
from checks.jobs import JSim, Missing

VAR = NS + 'Variable'
WS = NS + 'Workspace'
OPAQUE = ('AttributeHandler',)


def var_env(actions=(0, 0, 0), setups=True, also=None):
    """an arbitrary concrete variable"""
    def given(I, st, fr, node, name, recv, args):
        if args is None:
            return None
        if name.endswith('AttributeHandler::ValidateAttributes'):
            return [(s, C(b)) for s, b in (forks(I, st, 'Valid', ()) if setups else [(st, True)])]
        if also is not None:
            r = also(I, st, fr, node, name, recv, args)
            if r is not None:
                return r
        if not name.startswith('oacdrv::'):
            return None
        last = name.split('::')[-1]
        if last not in ('VarRead', 'VarWrite', 'VarAvailable', 'VarSetup', 'VarActions', 'SeenValue'):
            return None
        k = I.norm(st, I.val(st, args[0]))[1]
        if last == 'VarRead':
            out = []
            for s, b in forks(I, st, 'VarRead', (k,)):
                if b:
                    set_desc(I, s, args[1], 'held')
                out.append((s, C(b)))
            return out
        if last == 'VarWrite':
            return [(s, C(b)) for s, b in forks(I, st, 'VarWrite', (k, desc(I, st, args[1])))]
        if last == 'VarAvailable':
            return [(s, C(b)) for s, b in forks(I, st, last, (k,))]
        if last == 'VarSetup':
            if setups:
                return [(s, C(b)) for s, b in forks(I, st, last, (k,))]
            I.ev(st, 'drv', last, (C(k),), TRUE)
            return [(st, TRUE)]
        if last == 'VarActions':
            return [(st, C(actions[k]))]
        if last == 'SeenValue':
            I.ev(st, 'drv', last, (C(k), ('c', desc(I, st, args[1]))), C(None))
            return [(st, C(None))]
    return given


def trace(o, marks=True):
    """what was observed, with the locks held at that moment"""
    out, held = [], []
    for e in flat(o.log):
        if e[0] == 'lock':
            held.append(e[1])
        elif e[0] == 'unlock' and e[1] in held:
            held.remove(e[1])
        elif e[0] == 'drv' and (marks or e[1] != 'Mark'):
            args = tuple(x[1] if x[0] == 'c' else sname(x) or show(x) for x in (norm(o, a) for a in e[2]))
            v = norm(o, e[3])
            out.append((e[1], args, v[1] if v[0] == 'c' else show(v), tuple(held)))
    return out


class VSim(JSim):
    def __init__(self, tr):
        self.tr = tr
        self.given, self.out, self.used = {}, [], {}
        for name, args, val, _ in tr:
            if val is not None:
                self.given.setdefault((name, args), []).append(val)

    def see(self, name, *args):
        self.out.append((name, args, None))


def txt(e):
    return 'nothing' if e is None else '%s(%s)%s' % (e[0], ', '.join(str(x) for x in e[1]), '' if e[2] is None else ' = %s' % (e[2],))


def follows(script, names, start='', extra=None):
    """the observed trace is the one of the reference model"""
    def pred(o):
        if o.kind != 'ret':
            return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
        tr = trace(o)
        sim = VSim(tr)
        try:
            script(sim)
        except Missing:
            pass
        want = [e for e in sim.out if e[0] in names]
        have = [e[:3] for e in tr if e[0] in names]
        for i in range(max(len(want), len(have))):
            w = want[i] if i < len(want) else None
            h = have[i] if i < len(have) else None
            if w != h:
                return '%sobserved %s instead of %s (after %s)' % (start, txt(h), txt(w), '; '.join(txt(x) for x in have[max(0, i - 4):i]))
        if extra is not None:
            return extra(o, tr)
    return pred


class Fork(Exception):
    """the reference model asks something the program did not ask"""


class Loose(VSim):
    """answers the questions of the reference model as the environment did, in whatever order the program asked them"""

    def __init__(self, tr, effects, choices):
        VSim.__init__(self, tr)
        self.effects, self.choices, self.at = effects, list(choices), 0
        self.seg, self.segs, cur = None, {}, None
        for name, args, val, _ in tr:
            if name == 'Mark':
                cur = args[0]
            self.segs.setdefault(cur, {}).setdefault((name, args), []).append(val)
        self.used = {}

    def see(self, name, *args):
        if name == 'Mark':
            self.seg = args[0]
        self.out.append((name, args, None))

    def ask(self, name, *args):
        k = (self.seg, name, args)
        i = self.used.get(k, 0)
        self.used[k] = i + 1
        vals = self.segs.get(self.seg, {}).get((name, args), ())
        if name in self.effects:
            self.out.append((name, args, vals[i] if i < len(vals) else 'missing'))
            if i >= len(vals):
                raise Missing(name)
            return vals[i]
        if vals:
            return vals[min(i, len(vals) - 1)]
        if self.at < len(self.choices):
            self.at += 1
            return self.choices[self.at - 1]
        raise Fork(name)


def agrees(script, effects, start='', extra=None, domains={}):
    """status and effects are those of the reference model, whichever questions led to them"""
    def pred(o):
        if o.kind != 'ret':
            return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
        tr = trace(o)
        have = [e[:3] for e in tr if e[0] in effects]
        work = [()]
        n = 0
        while work:
            ch = work.pop()
            n += 1
            if n > 256:
                return 'the reference asks too many questions the program does not ask'
            sim = Loose(tr, effects, ch)
            try:
                script(sim)
            except Missing:
                pass
            except Fork as e:
                work += [ch + (v,) for v in domains.get(e.args[0], (True, False))]
                continue
            want = [e for e in sim.out if e[0] in effects]
            for i in range(max(len(want), len(have))):
                w = want[i] if i < len(want) else None
                h = have[i] if i < len(have) else None
                if w != h:
                    return '%sobserved %s instead of %s (after %s)%s' % (start, txt(h), txt(w), '; '.join(txt(x[:3]) for x in tr[-8:]),
                                                                        '' if not ch else ', with answers %s it did not ask for' % (ch,))
        if extra is not None:
            return extra(o, tr)
    return pred


OBS = ('Mark', 'Valid', 'VarRead', 'VarWrite', 'VarAvailable', 'VarSetup', 'VarTeardown', 'SeenBool', 'SeenInt', 'SeenValue', 'HasField', 'Assign', 'Convert', 'IsEmpty')
OPS = {0: 'Setup', 1: 'Teardown', 2: 'Reset', 3: 'GetValue', 4: 'GetValue of a field', 5: 'GetValue of a field into an empty value',
       6: 'SetValue', 7: 'SetValue of a field', 8: 'IsAvailable'}


class VarModel:
    """a variable as the documentation describes it"""

    def __init__(self, sim):
        self.sim, self.usable, self.user = sim, False, 'user'

    def setup(self):
        self.usable = False
        if not self.sim.ask('Valid'):
            return self.sim.see('SeenInt', 0, 1)
        if not self.sim.ask('VarSetup', 0):
            return self.sim.see('SeenInt', 0, 1)
        self.usable = True
        self.sim.see('SeenInt', 0, 0)

    def teardown(self):
        self.usable = False
        self.sim.see('VarTeardown', 0)

    def get(self, dest, field):
        s = self.sim
        if not self.usable or not s.ask('VarRead', 0):
            return False, dest
        if not field:
            src = 'held'
        elif not s.ask('HasField', 'held', 'f'):
            return False, dest
        else:
            src = ('field', 'held', 'f')
        if dest == 'EMPTY':
            return True, src
        if s.ask('Convert', dest, src):
            return True, ('conv', dest, src)
        return False, dest

    def set(self, field):
        s = self.sim
        if not self.usable:
            return False
        if not field:
            return s.ask('VarWrite', 0, 'input')
        if not s.ask('VarRead', 0) or not s.ask('HasField', 'held', 'f') or not s.ask('Assign', ('field', 'held', 'f'), 'input'):
            return False
        return s.ask('VarWrite', 0, ('with', 'held', 'f', 'input'))

    def op(self, k):
        s = self.sim
        if k == 0:
            self.setup()
        elif k == 1:
            self.teardown()
        elif k == 2:
            self.teardown()
            self.setup()
        elif k in (3, 4, 5):
            ok, d = self.get('EMPTY' if k == 5 else self.user, k != 3)
            if k != 5:
                self.user = d
            s.see('SeenBool', 0, ok)
            s.see('SeenValue', 0, d)
        elif k in (6, 7):
            s.see('SeenBool', 0, self.set(k == 7))
        elif k == 8:
            s.see('SeenBool', 0, s.ask('VarAvailable', 0) if self.usable else False)


def var_program(ops):
    def script(sim):
        m = VarModel(sim)
        for k, op in enumerate(ops):
            sim.see('Mark', k)
            m.op(op)
    return script


def one_lock(o, tr):
    """the hooks of a variable run under one and the same mutex of that variable"""
    for name, args, val, locks in tr:
        if name in ('VarRead', 'VarWrite', 'VarAvailable') and not locks:
            return '%s runs without the mutex of the variable' % name
    sets = [set(t[3]) for t in tr if t[0] in ('VarRead', 'VarWrite', 'VarAvailable')]
    if sets and not set.intersection(*sets):
        return 'the operations of the variable are not protected by one common mutex'
    for name, args, val, locks in tr:
        if name in ('VarSetup', 'VarTeardown', 'SeenInt') and sets and set.intersection(*sets) & set(locks):
            return '%s while the mutex of the variable is held' % ('set up' if name == 'VarSetup' else name)
    if o.st.locks:
        return 'returns with a mutex held'


def args_hook(also):
    """the arguments of the program"""
    def given(I, st, fr, node, name, recv, args):
        return also(I, st, fr, node, name, recv, args)
    return given


def described_args(names):
    def prep(I, st, *rest):
        return st
    return prep


def vjob(name, ops, script, rule, names=OBS, env=None, extra=None, label=OPS, **kw):
    return (rule, name, follows(script, names, 'after %s: ' % ', '.join(label.get(x, str(x)) for x in ops), extra),
            dict(extra=val_hook(program(ops, env or var_env())), max_time=120, **kw))


@check('C22', rule='client programs against a reference model + lock-set analysis', explain='Sequences of operations on a variable whose concrete behaviour is unknown: results, the calls into the concrete variable with their values, and the mutexes held while they run.')
def c22(ctx):
    access = (3, 4, 5, 6, 7, 8)
    seqs = []
    for a in access:
        seqs += [(a, a), (0, a), (1, a), (2, a), (0, 1, a), (0, 0, a), (0, 2, a), (0, a, a), (1, 0, a)]
    seqs += [(0, 6, 3), (0, 7, 4), (0, 3, 6), (0, 8, 3), (2, 1, 8), (0, 3, 4)]
    if ctx.tier == 'thorough':
        seqs += [(0, a, b) for a in access for b in access] + [(0, x, y, a) for x in (0, 1, 2) for y in (0, 1, 2) for a in access]
    jobs = []
    for ops in seqs:
        jobs.append(vjob('VarOps%d' % len(ops), ops, var_program(ops), 'access', extra=one_lock))
    ctx.parallel(jobs)
    for n in ('GetValue', 'SetValue', 'IsAvailable', 'Setup', 'Teardown', 'Reset'):
        ctx.paths(ctx.p.one('Variable::' + n))
    lockset(ctx, VAR, ['m_setup_successful'], 'lock-held')


# ------------------------------------------------------------------------------------------- C23
def attrs_env(attrs, also=None):
    """attributes of a concrete variable: name -> text/value, None (absent) or 'FAIL' (not readable)"""
    def given(I, st, fr, node, name, recv, args):
        if args is None:
            return None
        last = name.split('::')[-1]
        if also is not None:
            r = also(I, st, fr, node, name, recv, args)
            if r is not None:
                return r
        if name.endswith(('Variable::HasAttribute', 'AttributeHandler::HasStringAttribute')):
            a = I.norm(st, I.val(st, args[0]))
            return [(st, C(attrs.get(a[1]) is not None))] if a[0] == 'c' else None
        if name.endswith('Variable::GetAttributeString'):
            a = I.norm(st, I.val(st, args[0]))
            return [(st, C(str(attrs.get(a[1], ''))))] if a[0] == 'c' else None
        if name.endswith('AttributeHandler::GetValueAs') and len(args) == 2:
            a = I.norm(st, I.val(st, args[0]))
            v = attrs.get(a[1]) if a[0] == 'c' else None
            if v is None or v == 'FAIL':
                return [(st, FALSE)]
            I.write(st, args[1][1], C(v))
            return [(st, TRUE)]
        if name.endswith('JSONAnyTypeParser::ParseString'):
            return [(s, C(b)) for s, b in forks(I, st, 'ParseType', (I.norm(st, I.val(st, args[0]))[1],))]
        if name.endswith('JSONAnyTypeParser::MoveAnyType'):
            a = I.fresh('type', 'sup::dto::AnyType')
            st.store[any_key(a)] = C(any_index('T'))
            return [(st, a)]
        if name.endswith('JSONAnyValueParser::TypedParseString'):
            t = any_get(I, st, args[0])
            return [(s, C(b)) for s, b in forks(I, st, 'ParseValue', (t, I.norm(st, I.val(st, args[1]))[1]))]
        if name.endswith('JSONAnyValueParser::ParseFile'):
            return [(s, C(b)) for s, b in forks(I, st, 'ReadFile', (I.norm(st, I.val(st, args[0]))[1],))]
        if name.endswith('JSONAnyValueParser::MoveAnyValue'):
            n = sum(1 for e in flat(st.log) if e[0] == 'drv' and e[1] == 'ReadFile')
            return [(st, any_make(I, st, ('file', n) if n else 'parsed', 'parsed'))]
        if last == 'AnyValueToJSONFile':
            pretty = I.norm(st, I.val(st, args[2])) if len(args) > 2 else FALSE
            out = []
            for s, b in forks(I, st, 'WriteFile', (desc(I, st, args[0]), I.norm(st, I.val(st, args[1]))[1], pretty[1])):
                out.append((s, C(None) if b else Exc(I.fresh('exc'), 'sup::dto::SerializeException')))
            return out
        if name.endswith('GetFileDirectory'):
            return [(st, C('DIR'))]
        if name.endswith('GetFullPathName'):
            a, b = (I.norm(st, I.val(st, x)) for x in args)
            return [(st, C('%s|%s' % (a[1], b[1])))]
        return None
    return given


NOBS = OBS + ('ParseType', 'ParseValue', 'ReadFile', 'WriteFile', 'SeenText')


def nonempty(d):
    return d != 'EMPTY'


def local_program(ops, attrs):
    def script(s):
        usable, m = False, 'EMPTY'

        def notify(v, c):
            s.see('SeenBool', 9, c)
            s.see('SeenValue', 9, v)
        for k, op in enumerate(ops):
            s.see('Mark', k)
            if op == 0:
                usable = False
                if not s.ask('Valid'):
                    s.see('SeenInt', 0, 1)
                    continue
                if attrs.get('type') is None:
                    m = 'EMPTY'
                elif not s.ask('ParseType', attrs['type']):
                    s.see('SeenInt', 0, 1)
                    continue
                elif attrs.get('value') is None:
                    m = ('typed', 'T')
                elif not s.ask('ParseValue', 'T', attrs['value']):
                    s.see('SeenInt', 0, 1)
                    continue
                else:
                    m = 'parsed'
                notify(m, True)
                usable = True
                s.see('SeenInt', 0, 0)
            elif op == 1:
                usable, m = False, 'EMPTY'
            elif op == 3:
                ok = usable and nonempty(m)
                s.see('SeenBool', 0, ok)
                s.see('SeenValue', 0, m if ok else 'EMPTY')
            elif op in (6, 7):
                v = 'first' if op == 6 else 'second'
                ok = usable
                if ok and nonempty(m):
                    if attrs.get('dynamicType') is True:
                        ok = s.ask('Assign', m, v)
                        m = v if ok else m
                    else:
                        ok = s.ask('Convert', m, v)
                        m = ('conv', m, v) if ok else m
                elif ok:
                    m = v
                if ok:
                    notify(v, True)
                s.see('SeenBool', 0, ok)
            elif op == 8:
                s.see('SeenBool', 0, usable)
    return script


def file_program(ops, attrs):
    def script(s):
        usable, reads, path = False, 0, '|out.json'

        def notify(v, c):
            s.see('SeenBool', 9, c)
            s.see('SeenValue', 9, v)

        def read():
            nonlocal reads
            reads += 1
            return s.ask('ReadFile', path)
        for k, op in enumerate(ops):
            s.see('Mark', k)
            if op == 0:
                usable = False
                if not s.ask('Valid'):
                    s.see('SeenInt', 0, 1)
                    continue
                path = 'DIR|out.json'
                ok = read()
                notify(('file', reads) if ok else 'EMPTY', ok)
                usable = True
                s.see('SeenInt', 0, 0)
            elif op == 3:
                ok = usable and read()
                s.see('SeenBool', 0, ok)
                s.see('SeenValue', 0, ('file', reads) if ok else 'EMPTY')
            elif op in (6, 7):
                v = 'first' if op == 6 else 'second'
                p = attrs.get('pretty')
                ok = usable and p != 'FAIL' and s.ask('WriteFile', v, path, bool(p))
                if ok:
                    notify(v, True)
                s.see('SeenBool', 0, ok)
            elif op == 8:
                s.see('SeenBool', 0, read() if usable else False)
    return script


def ws_notify(s):
    conn = s.ask('VarSetup', 7)
    for m, n in ((0, 'a'), (1, 'b'), (2, None)):
        s.see('Mark', m)
        if n:
            s.see('SeenText', 0, n)
            s.see('SeenValue', 0, 'value')
            s.see('SeenBool', 0, conn)
        if n == 'b':
            s.see('SeenValue', 1, 'value')
            s.see('SeenBool', 1, conn)


def wait_env(updates):
    """updates may arrive during a check and during a wait; a wait may time out"""
    def get(st, k, d=0):
        v = st.store.get(('g', 'wait.' + k))
        return d if v is None else v[1]

    def put(st, k, v):
        st.store[('g', 'wait.' + k)] = C(v)

    def given(I, st, fr, node, name, recv, args):
        if args is None:
            return None
        if name == 'oacdrv::VarAvailable':
            n = get(st, 'checks')
            if n > updates + 3:
                return []                  # time goes on: the waiting ends
            put(st, 'checks', n + 1)
        if name == 'oacdrv::Update':
            if get(st, 'updates') >= updates:
                return [(st, FALSE)]
            out = []
            for s, b in forks(I, st, 'Update', (0,)):
                if b:
                    put(s, 'updates', get(s, 'updates') + 1)
                out.append((s, C(b)))
            return out
        if name.startswith('cv:'):
            return wait(I, st, fr, node, args[0], name != 'cv:wait')
        return None

    def wait(I, st, fr, node, pred, timed):
        def again(s):
            out = []
            if pred == C(None):
                sts = [(s, None)]
            else:
                sts = [(s2, b) for s1, r in I.apply(s, pred, [], fr, {'t': 'bool', 'l': node['l']})
                       for s2, b in I.decide(s1, I.val(s1, r))]
            for s2, b in sts:
                if b:
                    out.append((s2, TRUE))
                    continue
                I.ev(s2, 'drv', 'Blocks', (), C(None))
                if get(s2, 'updates') < updates:
                    s3 = s2.copy()
                    I.ev(s3, 'drv', 'Update', (C(1),), TRUE)
                    put(s3, 'updates', get(s3, 'updates') + 1)
                    held = s3.locks
                    s3.locks = ()          # the mutex is released while waiting; the update comes from another thread
                    n = len(s3.log)
                    for s4, r in I.invoke(s3, I.p.fn('oacdrv::Arrive')[0], None, [], fr):
                        s4.locks = held
                        woken = any(x[0] == 'notify' for x in s4.log[n:])
                        if isinstance(r, Exc):
                            out.append((s4, r))
                        elif pred == C(None):
                            out.append((s4, ('e', 'std::cv_status::no_timeout', 0)))
                        elif woken:
                            out += again(s4)
                        else:
                            I.ev(s4, 'drv', 'Missed', (), C(None))
                            out.append((s4, FALSE))
                if timed:
                    s3 = s2.copy()
                    I.ev(s3, 'drv', 'Timeout', (), C(None))
                    out.append((s3, FALSE if pred != C(None) else ('e', 'std::cv_status::timeout', 1)))
            return out
        return again(st)
    return given


def wanted_env(I, st, fr, node, name, recv, args):
    if name == 'oacdrv::VarSetup' and args and I.norm(st, I.val(st, args[0])) == C(7):
        return [(s, C(b)) for s, b in forks(I, st, 'VarSetup', (7,))]


def waits(o):
    if o.kind != 'ret':
        return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
    tr = trace(o)
    wanted = [v for n, a, v, _ in tr if n == 'VarSetup' and a == (7,)][0]
    inside = False
    fresh = False                # an update arrived that no check has taken into account
    last, stale = None, False
    for i, (n, a, v, locks) in enumerate(tr):
        if n == 'Mark':
            inside = a == (0,)
            continue
        if not inside:
            continue
        if n == 'VarAvailable':
            fresh, last, stale = False, v, False
        elif n == 'Update' and v:
            fresh = True
        elif n == 'Blocks' and fresh:
            return 'blocks although an update arrived after the last check of the variable (lost wake-up)'
        elif n == 'Blocks' and last is None:
            return 'blocks before checking the variable'
        elif n == 'Blocks' and last == wanted:
            return 'blocks although the variable has the requested availability'
        elif n == 'Blocks':
            stale = True
        elif n == 'Missed':
            return 'an update does not wake the waiting thread'
        elif n == 'SeenBool':
            if stale:
                return 'the variable is not checked again after the wait'
            if last is None or a[1] != (last == wanted):
                return 'WaitForVariable answers %s although the last check said %s' % (a[1], last)
            if not a[1] and not any(x[0] == 'Timeout' for x in tr[:i]) and not any(e[0] == 'timecmp' for e in flat(o.log)):
                return 'gives up before the timeout'
    log = list(flat(o.log))
    if any(e[0] == 'deadlock' for e in log):
        return 'an update from another thread while the variable is checked needs the mutex that the waiting thread holds (deadlock)'
    after = [i for i, e in enumerate(log) if e[0] == 'drv' and e[1] == 'Mark' and e[2] == (C(1),)]
    if after and any(e[0] == 'notify' for e in log[after[0]:]):
        return 'the callback stays registered after WaitForVariable returned'


@check('C23', rule='client programs against a reference model', explain='Writes to local and file variables under every configuration of their attributes, and every outcome of parsing, conversion and file access: result, stored value and notification; delivery of notifications through the workspace.')
def c23(ctx):
    jobs = []
    confs = [{'type': t, 'value': v, 'dynamicType': d} for t, v in ((None, None), ('TT', None), ('TT', 'VV')) for d in (None, True, False, 'FAIL')]
    seqs = [(0, 6, 3, 7), (0, 6, 7, 3), (6, 0, 6, 3), (0, 1, 6, 3), (0, 6, 1, 0), (0, 6, 0, 3), (0, 3, 8, 6)]
    for a in confs:
        for ops in seqs:
            jobs.append(vjob('LocalOps4', ops, local_program(ops, a), 'local', NOBS, attrs_env(a, var_env())))
    for p in (None, True, False, 'FAIL'):
        a = {'file': 'out.json', 'pretty': p}
        for ops in ((0, 6, 3), (0, 6, 7), (6, 0, 3), (0, 3, 3), (0, 8, 6), (8, 0, 8), (0, 0, 3)):
            jobs.append(vjob('FileOps3', ops, file_program(ops, a), 'file', NOBS, attrs_env(a, var_env())))
    jobs.append(('notify', 'WsNotify', follows(ws_notify, NOBS), dict(extra=val_hook(var_env(setups=False, also=wanted_env)))))
    for n in (0, 1, 2) if ctx.tier == 'quick' else (0, 1, 2, 3):
        jobs.append(('wait', 'WsWait', waits, dict(extra=val_hook(var_env(setups=False, also=both(wait_env(n), wanted_env))), max_time=200)))
    ctx.parallel(jobs)


# ------------------------------------------------------------------------------------------- C24
def ws_names(s):
    see = s.see
    see('SeenBool', 0, True)
    see('SeenBool', 0, True)
    see('SeenInt', 1, 1)
    see('SeenInt', 2, 2)
    see('SeenText', 2, 'z')
    see('SeenText', 2, 'a')
    for b in (True, True, False):
        see('SeenBool', 3, b)
    for b in (True, True, True):
        see('SeenBool', 4, b)
    see('SeenInt', 5, 2)
    for b in (True, False, False, True):
        see('SeenBool', 5, b)
    for a in [x[1] for x in s.tr if x[0] == 'VarSetup'][:2]:
        s.ask('VarSetup', a[0])
    see('Mark', 1)
    for _ in range(5):
        see('SeenBool', 6, False)
    user = ['user']

    def get(i, field):
        if not s.ask('VarRead', i) or field and not s.ask('HasField', 'held', field):
            return see('SeenBool', 7, False)
        src = ('field', 'held', field) if field else 'held'
        ok = s.ask('Convert', user[0], src)
        if ok:
            user[0] = ('conv', user[0], src)
        see('SeenBool', 7, ok)
    see('Mark', 2)
    get(1, None)
    see('Mark', 3)
    see('SeenBool', 7, s.ask('VarWrite', 0, 'input'))
    see('Mark', 4)
    get(0, 'f')
    see('Mark', 5)
    if not s.ask('VarRead', 0) or not s.ask('HasField', 'held', '[0].f') or not s.ask('Assign', ('field', 'held', '[0].f'), 'input'):
        see('SeenBool', 7, False)
    else:
        see('SeenBool', 7, s.ask('VarWrite', 0, ('with', 'held', '[0].f', 'input')))
    see('Mark', 6)
    see('VarTeardown', 1)
    s.ask('VarSetup', 1)
    see('SeenBool', 7, True)


def names_unique(o, tr):
    ids = sorted(a[0] for n, a, v, _ in tr[:[i for i, x in enumerate(tr) if x[:2] == ('Mark', (1,))][0]] if n == 'VarSetup')
    if ids != [0, 1]:
        return 'setting up the workspace sets up the variables %s instead of each variable once' % ids


def splits(s):
    for a, b in (('a', ''), ('a', 'b'), ('a', 'b.c'), ('a', '[0]'), ('a', '[0].b'), ('a', 'b[0]'), ('', ''), ('a', '')):
        s.see('SeenText', 0, a)
        s.see('SeenText', 1, b)


ACT = {0: ('', False, False), 1: ('one', True, True), 2: ('two', True, True), 3: ('one', True, False), 4: ('one', False, True), 5: ('', True, True)}


def life(ops, acts):
    def pred(o):
        if o.kind != 'ret':
            return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
        tr = [e[:3] for e in trace(o)]
        parts, cur = {}, None
        for e in tr:
            if e[0] == 'Mark':
                cur = e[1][0]
                parts[cur] = []
            elif cur is not None:
                parts[cur].append(e)
        done, pending = False, []

        def actions(evs, setup, wanted, what):
            got = sorted(ACT[acts[a[0]]][0] for n, a, v in evs if n == 'Action' and a[1] is setup)
            if got != sorted(wanted):
                return '%s: the %s actions of %s ran instead of those of %s' % (what, 'setup' if setup else 'teardown', got or 'nobody', sorted(wanted) or 'nobody')
        for k, op in enumerate(ops):
            evs = parts.get(k, [])
            what = 'after %s' % ', '.join('Setup' if x == 0 else 'Teardown' for x in ops[:k + 1])
            sets = [(a[0], v) for n, a, v in evs if n == 'VarSetup']
            downs = sorted(a[0] for n, a, v in evs if n == 'VarTeardown')
            want_s, want_t, bad = [], [], None
            if op == 0 and not done:
                failed = any(not v for _, v in sets) or any(n == 'Valid' and not v for n, a, v in evs)
                ids = [i for i, _ in sets]
                if len(set(ids)) != len(ids) or not failed and sorted(ids) != [0, 1]:
                    return '%s: the variables %s were set up instead of each variable once' % (what, ids)
                if [v for n, a, v in evs if n == 'SeenInt'] != [None] or [a for n, a, v in evs if n == 'SeenInt'] != [(0, 1 if failed else 0)]:
                    return '%s: a failing variable %s' % (what, 'is not reported by an exception' if failed else 'is reported although none failed')
                if not failed:
                    done = True
                    want_s = sorted({ACT[a][0] for a in acts if ACT[a][0] and ACT[a][1]})
                    pending = sorted({ACT[a][0] for a in acts if ACT[a][0] and ACT[a][2]})
                    last = max([i for i, e in enumerate(evs) if e[0] == 'VarSetup'])
                    if any(e[0] == 'Action' for e in evs[:last]):
                        return '%s: a setup action runs before all variables are set up' % what
            elif op == 0:
                if sets:
                    return '%s: variables are set up again although the workspace is set up' % what
            if op == 1:
                done = False
                want_t, pending = pending, []
                if downs != [0, 1]:
                    return '%s: the variables %s were torn down instead of each variable once' % (what, downs)
                first = min(i for i, e in enumerate(evs) if e[0] == 'VarTeardown')
                if any(e[0] == 'Action' for e in evs[first:]):
                    return '%s: a teardown action runs after variables were torn down' % what
                if sets:
                    return '%s: teardown sets up variables' % what
            elif downs:
                return '%s: variables are torn down' % what
            bad = actions(evs, True, want_s, what) or actions(evs, False, want_t, what)
            if bad:
                return bad
            if ('SeenBool', (1, done), None) not in evs:
                return '%s: IsSuccessfullySetup does not answer %s' % (what, done)
        evs = parts.get(99, [])
        return actions(evs, False, pending, 'on destruction') or actions(evs, True, [], 'on destruction')
    return pred


@check('C24', rule='client programs against a reference model', explain='Programs that add variables, look them up, address their fields, set up and tear down the workspace, for every answer of the variables and every combination of setup and teardown actions.')
def c24(ctx):
    jobs = [('names', 'WsNames', follows(ws_names, NOBS, '', names_unique), dict(extra=val_hook(var_env(setups=False)))),
            ('field-names', 'Splits', follows(splits, NOBS), {})]
    combos = [(a, b) for a in range(6) for b in range(6)] if ctx.tier == 'thorough' else [(0, 0), (1, 1), (1, 2), (3, 4), (5, 1), (4, 1), (1, 3), (5, 5), (2, 2)]
    for acts in combos:
        for ops in ((0, 0, 1), (0, 1, 0), (0, 1, 1), (1, 0, 1)):
            jobs.append(('life-cycle', 'WsOps3', life(ops, acts), dict(extra=val_hook(program(ops, var_env(acts)))) ))
    if ctx.tier == 'thorough':
        for acts in combos:
            for ops in ((0, 1, 0, 1), (0, 1, 0, 0), (0, 0, 1, 0)):
                jobs.append(('life-cycle', 'WsOps4', life(ops, acts), dict(extra=val_hook(program(ops, var_env(acts))), max_states=20000, max_time=300)))
    ctx.parallel(jobs)
