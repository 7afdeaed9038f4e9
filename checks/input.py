"""User input: the request queue and its futures, requests and replies, the instructions that ask."""
from client import *
import itertools
from valmodel import *
from absint import Exc
from checks import check
from checks.leaf import const_of, leaf_env, Leaf, No
from checks.vars import agrees
from checks.attrs import find

ADD, LOOK, GET, DROP, RUN, WAIT, DESTROY, KEPT = 0, 1, 2, 3, 4, 5, 6, 7
BLOCKED = 'oacdrv::Blocked'
KEY = ('g', 'thread')


def under(loc, obj):
    while isinstance(loc, tuple) and loc and loc[0] == 'fld':
        loc = loc[1]
    return loc == obj or isinstance(obj, tuple) and obj[0] in ('ref', 'ptr') and loc == obj[1]


def queue_env(ops, texts):
    def blocks(I, st, fr, node, pred):
        if pred == C(None):
            return [(st, None)]
        return [(s2, b) for s1, r in I.apply(st, pred, [], fr, {'t': 'bool', 'l': node['l']}) for s2, b in I.decide(s1, I.val(s1, r))]

    def run(I, st, fr, node):
        """the handler thread, until it ends or waits for work"""
        th = st.store.get(KEY)
        if th is None or th == NULL:
            return [(st, C('none'))]
        held, st.locks = st.locks, ()
        st.store[('g', 'running')] = TRUE
        out = []
        for s, r in I.apply(st, th[0], list(th[1:]), fr, node):
            if isinstance(r, Exc) and r.cls != BLOCKED:
                out.append((s, r))
                continue
            if s.locks:
                I.ev(s, 'drv', 'StillLocked', (), C(None))
            s.locks = held
            s.store[('g', 'running')] = FALSE
            if not isinstance(r, Exc):
                s.store[KEY] = NULL
            out.append((s, C('blocked' if isinstance(r, Exc) else 'ended')))
        return out

    def given(I, st, fr, node, name, recv, args):
        if args is None:
            return None
        last = name.split('::')[-1]
        if name == 'oacdrv::Text':
            return [(st, C(texts[const_of(I, st, args[0])]))]
        if name == 'oacdrv::SeenValue':
            I.ev(st, 'drv', last, (I.norm(st, I.val(st, args[0])), C(desc(I, st, args[1]))), C(None))
            return [(st, C(None))]
        if name == 'thread:start':
            if st.store.get(KEY) is not None:
                I.ev(st, 'drv', 'SecondThread', (), C(None))
            st.store[KEY] = tuple(args)
            return [(st, recv)]
        if name == 'oacdrv::Kept':
            n = 0
            for l, v in st.store.items():
                if isinstance(v, tuple) and v and v[0] in ('seq', 'map', 'set') and under(l, args[0]):
                    n += len(v[1]) + (len(v[3]) if v[0] == 'seq' else 0) + (v[2] is not None)
            I.ev(st, 'drv', last, (C(n),), C(None))
            return [(st, C(None))]
        if name == 'oacdrv::RunThread':
            out = []
            for s, r in run(I, st, fr, node):
                if r == C('ended') or r == C('none'):
                    I.ev(s, 'drv', 'ThreadGone', (), C(None))
                out.append((s, r if isinstance(r, Exc) else C(None)))
            return out
        if name == 'thread:join':
            out = []
            for s, r in run(I, st, fr, node):
                if r == C('blocked'):
                    I.ev(s, 'drv', 'NeverEnds', (), C(None))
                out.append((s, r if isinstance(r, Exc) else C(None)))
            return out
        if name in ('cv:wait', 'cv:wait_for', 'cv:wait_until'):
            out = []
            busy = st.store.get(('g', 'running')) == TRUE
            for s, b in blocks(I, st, fr, node, args[0]):
                if b:
                    out.append((s, TRUE))
                elif name == 'cv:wait':
                    if not busy:
                        I.ev(s, 'drv', 'NeverEnds', (), C(None))
                    out.append((s, Exc(C('blocked'), BLOCKED)))
                elif busy:
                    out.append((s, FALSE))
                else:
                    s2 = s.copy()
                    I.ev(s, 'drv', 'Meanwhile', (), FALSE)
                    out.append((s, FALSE))
                    I.ev(s2, 'drv', 'Meanwhile', (), TRUE)
                    n = len(s2.log)
                    for s3, r in run(I, s2, fr, node):
                        if isinstance(r, Exc):
                            out.append((s3, r))
                            continue
                        for s4, b2 in blocks(I, s3, fr, node, args[0]):
                            if b2 and not any(x[0] == 'notify' and recv is not None and x[2] == I.canon_loc(s4, recv[1]) for x in flat(s4.log[n:])):
                                I.ev(s4, 'drv', 'NotWoken', (), C(None))
                            out.append((s4, TRUE if b2 else FALSE))
            return out
        return None
    return given


QEFF = ('Mark', 'SeenBool', 'SeenInt', 'SeenText', 'SeenValue', 'StillLocked', 'SecondThread', 'ThreadGone', 'NeverEnds', 'NotWoken', 'Kept')


def qjob(main, nested=()):
    used = {o[1] for p in [main] + list(nested) for o in p if o[0] == ADD}
    if (DESTROY,) not in main:
        # whoever asked gives up: nothing may be left of any request
        main = main + [(RUN,)] + [(DROP, k) for k in sorted(used)] + [(RUN,), (KEPT,)]
    texts = ['r%d' % k for k in range(5)]
    progs = [main] + list(nested)
    starts, code, at = [], [], 6
    for p in progs:
        starts.append(at + len(code))
        for o in p:
            code += [o[0], o[1] if len(o) > 1 else 0]
        code.append(-1)
    starts += [at + len(code)] * (6 - len(starts))
    ops = starts + code + [-1]

    def script(s):
        queue, replies, state = [], {}, {'id': 0, 'cur': 0, 'calls': 0}
        held = {}

        def interp(pc, nested):
            while True:
                op = ops[pc]
                pc += 1
                if op < 0:
                    return
                k = ops[pc]
                pc += 1
                s.see('Mark', pc)
                f = held.get(k)
                if f is None and op in (LOOK, GET, WAIT):
                    continue
                if op == ADD:
                    state['id'] += 1
                    i = state['id']
                    queue.append((i, texts[k]))
                    old = held.get(k)
                    held[k] = i
                    if old:
                        drop(old)
                    s.see('SeenInt', 0, i)
                elif op == LOOK:
                    s.see('SeenBool', 1, bool(f))
                    s.see('SeenBool', 2, bool(f) and f in replies)
                elif op == GET:
                    if f and f in replies:
                        s.see('SeenBool', 3, True)
                        s.see('SeenBool', 4, True)
                        s.see('SeenValue', 5, ('lit', replies.pop(f)))
                        held[k] = 0
                    else:
                        s.see('SeenInt', 6, k)
                elif op == DROP:
                    if f:
                        drop(f)
                    held[k] = None
                elif op == RUN:
                    serve()
                elif op == KEPT:
                    s.see('Kept', 0)
                elif op == WAIT:
                    ok = bool(f) and f in replies
                    if f and not ok and not nested and s.ask('Meanwhile'):
                        serve()
                        ok = f in replies
                    s.see('SeenBool', 7, ok)

        def drop(i):
            if any(q[0] == i for q in queue):
                queue[:] = [q for q in queue if q[0] != i]
            elif i in replies:
                del replies[i]
            elif state['cur'] == i:
                s.see('SeenInt', 13, i)
                state['cur'] = 0

        def serve():
            while queue:
                i, t = queue.pop(0)
                state['cur'] = i
                call = state['calls']
                state['calls'] += 1
                s.see('SeenInt', 10, i)
                s.see('SeenValue', 11, ('lit', t))
                interp(ops[1 + call], True)
                s.see('SeenInt', 12, i)
                if state['cur'] == i:
                    replies[i] = t
                state['cur'] = 0
        interp(ops[0], False)
        s.see('Mark', 0)

    names = ('ask', 'look at', 'get', 'drop', 'serve', 'wait for', 'destroy', 'count what is left')
    show_p = lambda p: ', '.join(names[o[0]] + (' %d' % o[1] if len(o) > 1 else '') for o in p)
    what = show_p(main) + ''.join('; during handling %d: %s' % (i + 1, show_p(p)) for i, p in enumerate(nested) if p)
    return ('queue', 'InputQueue', agrees(script, QEFF, what + ': '), dict(extra=val_hook(program(ops, queue_env(ops, texts))), max_time=60, opaque=(), deep=True))


@check('C27', rule='client programs against a reference model', explain='Programs of requests, queries, cancellations and waits by several clients, before, while and after the handler thread serves them: order, replies, interruptions and states of the futures equal those of the model.')
def c27(ctx):
    jobs = []
    looks = [(LOOK, 0), (LOOK, 1)]
    alphabet = [(ADD, 0), (ADD, 1), (DROP, 0), (DROP, 1), (RUN,), (GET, 0), (GET, 1)]
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for seq in itertools.product(alphabet, repeat=n):
            main = [(ADD, 0), *seq, (RUN,)]
            live = {0}
            ok = True
            for o in seq:
                if o[0] == ADD:
                    live.add(o[1])
                elif o[0] in (DROP, GET):
                    ok = ok and o[1] in live
                    if o[0] == DROP:
                        live.discard(o[1])
            if ok:
                jobs.append(qjob(main + [x for k in sorted(live) for x in ((LOOK, k), (GET, k), (LOOK, k), (GET, k))] + [(RUN,)]))
    inner = [(ADD, 2), (ADD, 3), (DROP, 0), (DROP, 1), (LOOK, 0), (LOOK, 1), (GET, 0), (GET, 1), (WAIT, 0), (WAIT, 1)]
    firsts = [()] + [(a,) for a in inner] + [(a, b) for a in inner for b in inner if a != b and not (a[0] == DROP and b[1] == a[1])]
    for f in firsts:
        for g in [()] + [(a,) for a in inner] if ctx.thorough or len(f) < 2 else [(), (inner[3],), (inner[0],), (inner[2],)]:
            gone = {o[1] for o in f if o[0] == DROP}
            if any(o[1] in gone for o in g) or {2, 3} & {o[1] for o in f if o[0] == ADD} & {o[1] for o in g if o[0] == ADD}:
                continue
            gone |= {o[1] for o in g if o[0] == DROP}
            live = [k for k in (0, 1) if k not in gone] + [o[1] for o in f + g if o[0] == ADD]
            jobs.append(qjob([(ADD, 0), (ADD, 1), (RUN,), (RUN,)] + [x for k in live for x in ((LOOK, k), (GET, k))], [f, g]))
    for main in ([(ADD, 0), (WAIT, 0), (LOOK, 0), (WAIT, 0), (GET, 0), (WAIT, 0)], [(ADD, 0), (ADD, 1), (WAIT, 1), (WAIT, 0), (GET, 1), (GET, 0)],
                 [(ADD, 0), (RUN,), (WAIT, 0), (GET, 0), (ADD, 0), (WAIT, 0), (GET, 0)], [(ADD, 0), (ADD, 1), (DROP, 0), (WAIT, 1), (LOOK, 1)]):
        jobs.append(qjob(main))
        jobs.append(qjob(main, [((ADD, 2),), ((ADD, 3), (LOOK, 2))]))
    for main in ([], [(ADD, 0), (DROP, 0)], [(ADD, 0), (RUN,), (DROP, 0)], [(RUN,)]):
        jobs.append(qjob(main + [(DESTROY,)]))
    ctx.parallel(jobs)


REPLIES = ((True, 0), (True, 1), (True, 2), (True, -1), (False, -1))


def ask_env(attrs, halts):
    base = leaf_env(attrs)

    def given(I, st, fr, node, name, recv, args):
        if args is None:
            return None
        last = name.split('::')[-1]
        if name.startswith('oacdrv::'):
            if last in ('Valid', 'Ready'):
                return [(s, C(b)) for s, b in forks(I, st, last, ())]
            if last == 'HaltNow':
                out = [(st, FALSE)]
                if sum(1 for e in flat(st.log) if e[0] == 'drv' and e[1] == 'HaltArrives') < halts:
                    s = st.copy()
                    I.ev(s, 'drv', 'HaltArrives', (), C(None))
                    out.append((s, TRUE))
                return out
            if last in ('UsedAfterEnd', 'Blocks', 'Taken', 'Living'):
                I.ev(st, 'drv', last, tuple(C(const_of(I, st, a)) for a in args), C(None))
                return [(st, C(None))]
            if last == 'Asked':
                return [(st, C(None))]
        if last == 'CreateUserChoiceMetadata':
            return [(st, any_make(I, st, ('metadata',), 'meta'))]
        if last == 'AddMember' and recv is not None:
            d = desc(I, st, recv)
            if isinstance(d, tuple) and d[0] == 'metadata':
                set_desc(I, st, recv, d + ((const_of(I, st, args[0]), desc(I, st, args[1])),))
                return [(st, recv)]
        if last == 'CreateUserValueRequest':
            d = desc(I, st, args[0])
            d = d if isinstance(d, tuple) and d[0] == 'type' else ('type', d)     # a request carries the type of the value only
            I.ev(st, 'drv', 'AskValue', (('c', d), C(const_of(I, st, args[1]))), C(None))
            return [(st, I.opaque_of_type(I.fresh('request'), node['t']))]
        if last == 'CreateUserChoiceRequest':
            v = I.val(st, args[0])
            v = I.read(st, v[1]) if v[0] == 'ref' else v
            opts = tuple(const_of(I, st, x) for x in v[1]) if v[0] == 'seq' and v[2] is None else show(v)
            d = desc(I, st, args[1])
            I.ev(st, 'drv', 'AskChoice', (('c', opts), ('c', tuple(sorted(d[1:], key=str)) if d[0] == 'metadata' else d)), C(None))
            return [(st, I.opaque_of_type(I.fresh('request'), node['t']))]
        if last == 'ParseUserValueReply':
            return [(s, ('tup', (C(b), any_make(I, s, 'reply' if b else 'EMPTY', 'reply')))) for s, b in forks(I, st, 'ValueReply', ())]
        if last == 'ParseUserChoiceReply':
            out = []
            for ok, c in REPLIES:
                s = st.copy()
                I.ev(s, 'drv', 'ChoiceReply', (), ('c', (ok, c)))
                out.append((s, ('tup', (C(ok), C(c)))))
            return out
        return base(I, st, fr, node, name, recv, args)
    return given


def asking(kind, ops, attrs):
    def script(s):
        s.see('VarSetup', 0)
        s.see('VarSetup', 1)
        m = Leaf(s, kind, attrs)
        if not m.setup():
            return s.see('SeenInt', 9, 1)
        st = {'status': 'NOT_STARTED', 'halted': False, 'future': False, 'choice': None}

        def init():
            if kind == 'Input':
                v = m.read(attrs_of['outputVar'])
                s.see('AskValue', ('type', v), m.text('description'))
            elif kind == 'Confirmation':
                d, ok, no = m.text('description'), m.text('okText', 'Ok'), m.text('cancelText', 'Cancel')
                s.see('AskChoice', (ok, no), meta(d, 2))
            else:
                s.see('AskChoice', ('yes (type:Succeed)', 'no (type:Fail)'), meta(m.text('description'), 1))
            if not s.ask('Valid'):
                raise No
            st['future'] = True

        def go():
            if not st['future']:
                return 'FAILURE'
            if st['choice'] is not None:
                return ('SUCCESS', 'FAILURE')[st['choice']]
            ready = s.ask('Ready')
            if any(n == 'HaltArrives' for n, _ in s.segs.get(s.seg, {})):
                st['halted'] = True
                st['future'] = False
            if not ready:
                return 'RUNNING'
            s.see('Taken')
            if kind == 'Input':
                if not s.ask('ValueReply'):
                    raise No
                m.write('outputVar', 'reply')
                return 'SUCCESS'
            ok, c = s.ask('ChoiceReply')
            if not ok or kind == 'Choice' and not 0 <= c < 2:
                raise No
            if kind == 'Confirmation':
                return 'SUCCESS' if c == 0 else 'FAILURE'
            st['choice'] = c
            return 'NOT_FINISHED'

        attrs_of = dict(attrs)
        for k, op in enumerate(ops):
            s.see('Mark', k)
            if op == 0:
                try:
                    if st['status'] == 'NOT_STARTED':
                        init()
                        st['status'] = 'NOT_FINISHED'
                    if st['status'] in ('NOT_FINISHED', 'RUNNING') and not st['halted']:
                        st['status'] = go()
                except No:
                    st['status'] = 'FAILURE'
            elif op == 1:
                st['halted'], st['future'] = True, False
            elif op == 2:
                st.update(status='NOT_STARTED', halted=False, future=False, choice=None)
            s.see('SeenStatus', k, st['status'])
    return script


def meta(text, dialog):
    return tuple(sorted([('text', ('lit', text)), ('dialog_type', ('lit', dialog, 'UnsignedInteger32Type'))], key=str))


def withdrawn(ops):
    """at most one request is alive, and none after a halt, a reset or the end"""
    def extra(o, tr):
        k, halted = -1, False
        for name, args, val, _ in tr:
            if name == 'Mark':
                k, halted = args[0], False
            elif name == 'HaltArrives':
                halted = True
            elif name == 'SeenStatus':
                k2 = args[0]
            elif name == 'Living':
                n = args[0]
                if n > 1:
                    return '%s requests are alive at the same time' % n
                if n and (halted or k >= 0 and ops[k] in (1, 2)):
                    return 'the request is still alive after %s' % ('Reset' if ops[k] == 2 else 'a halt')
        last = [a for n, a, _, _ in tr if n == 'Living'][-1:]
        if last and last[0][0]:
            return 'the request outlives the instruction'
    return extra


ASK = ('Mark', 'SeenInt', 'SeenStatus', 'AskValue', 'AskChoice', 'Valid', 'UsedAfterEnd', 'Blocks', 'Taken', 'VarWrite')


@check('C44', rule='client programs against a reference model', explain='Each asking instruction with real attributes is executed, halted and reset in every order of four steps; the user interface refuses or accepts the request, the reply is there or not at every poll, and a halt by another thread may arrive during any poll.')
def c44(ctx):
    jobs = []
    steps = [seq for seq in itertools.product((0, 1, 2), repeat=4) if seq[0] != 2 or ctx.thorough]

    def job(kind, ops, attrs, halts):
        jobs.append(('ask', 'Ask' + kind, agrees(asking(kind, ops, attrs), ASK, '%s with %s, after %s%s: ' % (
            kind, ', '.join('%s=%r' % a for a in attrs), ', '.join(('ExecuteSingle', 'Halt', 'Reset')[x] for x in ops), ' and a halt meanwhile' if halts else ''),
            extra=withdrawn(ops), domains={'ChoiceReply': REPLIES}),
            dict(extra=val_hook(program(ops, ask_env(attrs, halts))), max_time=120, opaque=())))
    plain = {'Input': [('outputVar', 'a')], 'Confirmation': [('description', 'sure?')], 'Choice': [('description', 'which?')]}
    for kind, attrs in plain.items():
        for ops in steps:
            job(kind, ops, attrs, 0)
        for ops in ((0, 0, 0, 0), (0, 0, 2, 0), (0, 2, 0, 0), (0, 0, 1, 2)):
            job(kind, ops, attrs, 1)
    more = [('Input', [('outputVar', v), ('description', d)]) for v in ('a', 'a.x', 'none', '') for d in ('text', '@b', '@none', '@')] + \
        [('Input', [('description', 'text')])] + \
        [('Confirmation', [('description', d), ('okText', o), ('cancelText', c)]) for d, o, c in (
            ('text', 'yes', 'no'), ('@a', '@b', 'no'), ('text', 'yes', '@b'), ('@a', '@none', 'no'), ('', '', ''))] + \
        [('Confirmation', [('okText', 'x')]), ('Confirmation', [('description', 'text'), ('cancelText', 'no')])] + \
        [('Choice', []), ('Choice', [('description', '@a')]), ('Choice', [('description', '@none')])]
    for kind, attrs in more:
        job(kind, (0, 0, 2, 0), attrs, 0)
    ctx.parallel(jobs)
