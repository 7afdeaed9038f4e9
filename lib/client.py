"""Client programs (drivers/*.cpp): analysed together with the library; calls of the undefined oacdrv functions
are the observations (Seen.., Mark) and the unknowns (Tick, Init, Choose) of a run.  The observed trace of every
path is compared with a reference model for every value of the unknowns that is consistent with the path."""
from chk import *
from chk import site

ST = NS + 'ExecutionStatus::'
STATUSES = ('NOT_STARTED', 'NOT_FINISHED', 'RUNNING', 'SUCCESS', 'FAILURE')
TICK = ('NOT_FINISHED', 'RUNNING', 'SUCCESS', 'FAILURE')   # what a leaf may answer


def sname(v):
    return v[1].split('::')[-1] if v[0] == 'e' else None


def drv_hook(extra=None, opaque=('AttributeHandler',)):
    def hook(I, st, fr, node, name, recv, args):
        if name.startswith('oacdrv::') and args is not None:
            f = I.p.funcs.get(node.get('f'))
            if f is None or 'body' not in f:
                r = extra(I, st, fr, node, name, recv, args) if extra is not None else None
                if r is not None:
                    return r
                vals = tuple(I.norm(st, I.val(st, a)) for a in args)
                for i, v in enumerate(vals):
                    pts = [x['t'] for x in f['params']] if f and 'params' in f else node.get('pt') or [a.get('t', '') for a in node.get('a', ())]
                    if v[0] not in 'ce' and i < len(pts) and strip_t(pts[i]) == 'bool':
                        ds = I.decide(st, v)
                        if len(ds) > 1 or ds[0][1] is not None:
                            return [x for s, b in ds for x in hook(I, s, fr, node, name, recv, list(args[:i]) + [C(b)] + list(args[i + 1:]))]
                rt = strip_t(node.get('t', 'void'))
                short_n = name.split('::')[-1]
                if rt == 'void':
                    ret = C(None)
                else:
                    a = I.fresh('%s:%s' % (short_n, ','.join(show(v) for v in vals)), rt)
                    ret = I.opaque_of_type(a, rt)
                    if rt == NS + 'ExecutionStatus':
                        st.facts[ret] = ('in', frozenset(('e', ST + s, I.p.enumval[ST + s][1]) for s in TICK))
                I.ev(st, 'drv', short_n, vals, ret)
                return [(st, ret)]
        if extra is not None:
            r = extra(I, st, fr, node, name, recv, args)
            if r is not None:
                return r
        if args is not None and any(x in name for x in opaque):
            return I.opaque_call(node, st, fr, name, recv, args)
    return hook


class Arr(tuple):
    """an array value"""


ANYTAB = []


class Got(tuple):
    """(serial, name): what a variable held when it was read"""


def any_key(v):
    return ('fld', v, 'described')


def any_index(what):
    for i, x in enumerate(ANYTAB):
        if type(x) is type(what) and x == what:
            return i
    ANYTAB.append(what)
    return len(ANYTAB) - 1


def any_get(I, st, v):
    """the described value an AnyValue expression denotes, or None"""
    v = I.norm(st, I.val(st, v))
    for _ in range(8):
        if any_key(v) in st.store:
            return ANYTAB[st.store[any_key(v)][1]]
        w = st.store.get(('copyof', v))
        if w is None or w == v:
            break
        v = w
    return None


def any_make(I, st, what, tag):
    a = I.fresh('any:' + tag, 'sup::dto::AnyValue')
    st.facts[a] = ('out', frozenset([NULL]))
    st.store[any_key(a)] = C(any_index(what))
    return a


def any_put(I, st, arg, what, tag):
    """the AnyValue an argument refers to now holds the described value"""
    if arg[0] == 'ref' and I.canon_loc(st, arg[1])[0] != 'self':
        I.write(st, arg[1], any_make(I, st, what, tag))
        return
    v = I.canon_loc(st, arg[1])[1] if arg[0] == 'ref' else arg
    if what is None:
        st.store.pop(any_key(v), None)
    else:
        st.store[any_key(v)] = C(any_index(what))


def any_hook(values, futures=None):
    """values of attributes: name -> int | Arr | other | 'FAIL' | None; futures: what a user answers"""
    def extra(I, st, fr, node, name, recv, args):
        if args is None:
            return None
        last = name.split('::')[-1]
        if name.endswith('Instruction::GetAttributeValue') and args:
            a = I.norm(st, I.val(st, args[0]))
            if a[0] != 'c' or a[1] not in values:
                return None
            v = values[a[1]]
            if v is None:
                return [(st, TRUE)]
            if v == 'FAIL':
                return [(st, FALSE)]
            any_put(I, st, args[3], v, a[1])
            return [(st, TRUE)]
        if name.endswith('SetValueFromAttributeName') and len(args) == 5:
            a = I.norm(st, I.val(st, args[3]))
            v = any_get(I, st, args[4])
            r = I.fresh('Set:' + show(a), 'bool')
            I.ev(st, 'drv', 'SetValue', (a, ('c', v)), r)
            return [(st, r)]
        if name.startswith('sup::dto::'):
            if last in ('IsArrayValue', 'IsScalarValue', 'IsEmptyValue') and len(args) == 1:
                v = any_get(I, st, args[0])
                if v is not None:
                    return [(st, C({'IsArrayValue': isinstance(v, Arr), 'IsScalarValue': not isinstance(v, Arr) and v != 'EMPTY',
                                    'IsEmptyValue': v == 'EMPTY'}[last]))]
            if last == 'operator=' and recv is not None and len(args) == 1:
                v = any_get(I, st, args[0])
                if v is not None:
                    any_put(I, st, recv, v, 'assigned')
                    return [(st, recv)]
            if last == 'NumberOfElements' and recv is not None:
                v = any_get(I, st, recv)
                if v is not None:
                    return [(st, C(len(v) if isinstance(v, Arr) else 0))]
            if last == 'operator[]' and recv is not None and len(args) == 1:
                v = any_get(I, st, recv)
                i = I.norm(st, I.val(st, args[0]))
                if v is not None and i[0] == 'c' and isinstance(i[1], int):
                    if isinstance(v, Arr) and 0 <= i[1] < len(v):
                        return [(st, any_make(I, st, v[i[1]], str(i[1])))]
                    return [(st, Exc(I.fresh('exc'), 'sup::dto::InvalidOperationException'))]
            if last == 'As' and recv is not None and len(args) == 1 and args[0][0] == 'ref':
                v = any_get(I, st, recv)
                if v is not None:
                    if isinstance(v, int) and not isinstance(v, bool) and (v >= 0 or 'unsigned' not in str(node.get('targs', ''))):
                        I.write(st, args[0][1], C(v))
                        return [(st, TRUE)]
                    return [(st, FALSE)]
            if last in ('operator!=', 'operator==') and 'AnyType' in name:
                r = I.fresh('sametype', 'bool')
                key = ('g', 'sametype')
                r = st.store.setdefault(key, r)
                if not any(e[0] == 'drv' and e[1] == 'SameType' for e in st.log):
                    I.ev(st, 'drv', 'SameType', (), r)
                return [(st, r if last == 'operator==' else T('not', r))]
            if last in ('operator!=', 'operator==') and 'AnyValue' in name and recv is not None:
                tags = [x for x in (any_get(I, st, recv), any_get(I, st, args[0])) if isinstance(x, Got)]
                if tags:
                    r = I.fresh('same', 'bool')
                    I.ev(st, 'drv', 'Same', (C(max(tags)[1]),), r)
                    return [(st, r if last == 'operator==' else T('not', r))]
        if name.endswith('Workspace::GetValue') and len(args) == 2:
            a = I.norm(st, I.val(st, args[0]))
            r = I.fresh('Get', 'bool')
            I.ev(st, 'drv', 'Get', (a,), r)
            n = sum(1 for e in flat(st.log) if e[0] == 'drv' and e[1] == 'Get')
            any_put(I, st, args[1], Got((n, a[1] if a[0] == 'c' else show(a))), 'get')
            return [(st, r)]
        if last == 'VariableNamesFromAttribute' and len(args) == 2:
            a = I.norm(st, I.val(st, args[1]))
            if a[0] == 'c' and a[1] in values:
                return [(st, ('seq', tuple(C(x) for x in values[a[1]]), None, ()))]
        if futures is not None:
            if last == 'CreateUserChoiceFuture':
                out = []
                for ok in (True, False):
                    s = st.copy()
                    I.ev(s, 'drv', 'Future', (), C(ok))
                    f = I.fresh('future', 'sup::oac_tree::IUserInputFuture')
                    if ok:
                        s.facts[f] = ('out', frozenset([NULL]))
                    out.append((s, f if ok else NULL))
                return out
            if name.endswith('IUserInputFuture::IsReady'):
                r = I.fresh('ready', 'bool')
                I.ev(st, 'drv', 'Ready', (C('future'),), r)
                return [(st, r)]
            if last == 'ParseUserChoiceReply':
                out = []
                for ok, choice in futures:
                    s = st.copy()
                    I.ev(s, 'drv', 'Reply', (), ('c', (ok, choice)))
                    out.append((s, ('tup', (C(ok), C(choice)))))
                return out
            if last == 'CreateUserChoiceMetadata' or last == 'AddMember':
                return I.opaque_call(node, st, fr, name, recv, args)
        return None
    return extra


def both(*hs):
    def extra(*a):
        for h in hs:
            r = h(*a)
            if r is not None:
                return r
    return extra


def attr_hook(attrs):
    """attributes of the instructions fixed by the check: name -> value, None (absent) or 'FAIL' (not readable)"""
    def extra(I, st, fr, node, name, recv, args):
        if args is None or not args or not name.endswith(('Instruction::HasAttribute', 'Instruction::GetAttributeValueAs')):
            return None
        a = I.norm(st, I.val(st, args[0]))
        if a[0] != 'c' or a[1] not in attrs:
            return None
        v = attrs[a[1]]
        if name.endswith('HasAttribute'):
            return [(st, C(v is not None))]
        if v is None:
            return [(st, TRUE)]
        if v == 'FAIL':
            return [(st, FALSE)]
        I.write(st, args[3][1], C(v))
        return [(st, TRUE)]
    return extra


def client(ctx, name, extra=None, attrs=None, values=None, futures=None, opaque=('AttributeHandler',), max_time=60, max_states=4000, max_heads=20000, max_steps=None, unroll=False, deep=False, **kw):
    full = 'oacdrv::' + name
    hs = [h for h in (extra, attr_hook(attrs) if attrs is not None else None,
                      any_hook(values or {}, futures) if values is not None or futures is not None else None) if h]
    extra = both(*hs) if hs else None
    fs = ctx.p.fn(full)
    if not fs:
        d = [k + ': ' + v for k, v in ctx.p.driver_errors.items()]
        raise AnalysisError('client program %s not available %s' % (name, '; '.join(d)[:600]))
    return ctx.paths(fs[0], ModCfg(modular=False, sequential=True, run_async=True, max_heads=max_heads, unroll=unroll, **({'max_depth': 40, 'max_recursion': 12} if deep else {}), max_states=max_states, **({'max_steps': max_steps} if max_steps else {}), hook=drv_hook(extra, opaque), max_time=max_time), **kw)


def domain(o, v):
    """possible concrete values of an unknown on this path"""
    v = norm(o, v)
    if v[0] in ('c', 'e'):
        return [v]
    f = o.st.facts.get(v)
    t = o.I.ttype.get(v, '')
    if t == 'bool':
        allv = [TRUE, FALSE]
    elif t in o.I.p.enums:
        allv = [('e', c['n'], int(c['v'])) for c in o.I.p.enums[t]['c']]
    else:
        return None
    if f:
        allv = [x for x in allv if (x in f[1]) == (f[0] == 'in')]
    return allv


def valuations(o, limit=4000):
    """every assignment of the unknowns of this path, as a function value -> concrete value"""
    unk = []
    for e in flat(o.log):
        if e[0] == 'drv' and e[3] != C(None):
            v = norm(o, e[3])
            if v[0] not in ('c', 'e') and v not in unk:
                unk.append(v)
    doms = [domain(o, v) for v in unk]
    if any(d is None for d in doms):
        raise Undecided('an unknown without a finite domain: %s' % show(unk[[d is None for d in doms].index(True)]))
    n = 1
    for d in doms:
        n *= len(d)
    if n > limit:
        raise Undecided('too many combinations on one path')

    def rec(i, m):
        if i == len(unk):
            # relations recorded between unknowns
            yield dict(m)
            return
        for x in doms[i]:
            m[unk[i]] = x
            ok = True
            for (a, b), r in o.st.rels.items():
                va, vb = m.get(a, a), m.get(b, b)
                if va[0] in ('c', 'e') and vb[0] in ('c', 'e'):
                    k, l = va[-1] if va[0] == 'e' else va[1], vb[-1] if vb[0] == 'e' else vb[1]
                    try:
                        c = '<' if k < l else '>' if k > l else '='
                    except TypeError:
                        continue
                    if c not in r:
                        ok = False
            if ok:
                yield from rec(i + 1, m)
        m.pop(unk[i], None)
    yield from rec(0, {})


class Oracle:
    """replays the unknowns of a trace to a reference model"""

    def __init__(self, o, m):
        self.o, self.m = o, m
        self.ev = [e for e in flat(o.log) if e[0] in ('drv', 'call', 'spawned', 'join')]
        self.trace = []           # (name, args, value)
        for e in self.ev:
            if e[0] == 'drv':
                self.trace.append((e[1], tuple(self.conc(x) for x in e[2]), self.conc(e[3])))
            elif e[0] == 'spawned':
                self.trace.append(('Spawned', (self.conc(e[2]),), None))
            elif e[0] == 'join':
                self.trace.append(('Joined', (self.conc(o.st.store.get(('fld', e[1], 'who'), C(None))),), None))
            elif e[1].endswith('UserInterface::UpdateInstructionStatus'):
                self.trace.append(('Notify', (norm(o, e[3][0]),), None))

    def conc(self, v):
        v = norm(self.o, v)
        v = self.m.get(v, v)
        if v[0] == 'e':
            return sname(v)
        if v[0] == 'c':
            return v[1]
        return v
