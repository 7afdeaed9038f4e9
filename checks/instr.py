"""Instruction life cycle, composites and decorators: client programs against the reference semantics."""
from client import *
from refmodel import *
from checks import check


def probe_id(o, v):
    """id of the probe a pointer denotes"""
    v = norm(o, v)
    if v[0] == 'ref':
        v = v[1]
    if v[0] == 'o':
        for k in ('m_probe_id',):
            x = o.st.store.get(('fld', v, k))
            if x is not None and norm(o, x)[0] == 'c':
                return norm(o, x)[1]
        return 'self'
    return None


def observed(o, m, keep_notify=False):
    """trace of a path under a valuation of its unknowns: (name, args, value)"""
    orc = Oracle(o, m)
    out = []
    for name, args, val in orc.trace:
        if name == 'SeenPtr':
            out.append((name, (args[0], probe_id(o, args[1]) if isinstance(args[1], tuple) else args[1]), None))
        elif name != 'Notify':
            out.append((name, args, val))
    return out


def collapse(seq):
    out = []
    for x in seq:
        if out and out[-1] == x and x[0] in ('Halted', 'ResetOf'):
            continue
        out.append(x)
    return out


def project(trace, ids):
    """main thread of events, and per child everything that concerns it"""
    out, last = [], None
    for e in trace:
        if e[0] == 'SetValue':
            if e == last:
                continue          # the same value written again
            last = e
        out.append(e)
    trace = out
    main = [e for e in trace if e[0] not in ('Halted', 'ResetOf', 'Notify', 'Joined', 'Spawned')]
    per = {}
    for i in ids:
        per[i] = collapse([e for e in trace if e[0] == 'Mark' or (e[0] in ('Init', 'Tick', 'Halted', 'ResetOf', 'SetupOf') and e[1][0] == i)])
    return main, per


def text(e):
    if e is None:
        return 'nothing'
    n, a, v = e
    return '%s(%s)%s' % (n, ', '.join(str(x) for x in a), '' if v is None else ' = %s' % v)


def diff(want, got, ids):
    wm, wp = project(want, ids)
    gm, gp = project(got, ids)
    if wm != gm:
        for i in range(max(len(wm), len(gm))):
            a = wm[i] if i < len(wm) else None
            b = gm[i] if i < len(gm) else None
            if a != b:
                return 'expected %s, the code does %s (after %s)' % (text(a), text(b), '; '.join(text(x) for x in gm[max(0, i - 4):i]) or 'start')
    for i in ids:
        if wp[i] != gp[i]:
            return 'child %s: expected %s, the code does %s' % (i, '; '.join(text(x) for x in wp[i]), '; '.join(text(x) for x in gp[i]))
    return None


def compare(script, ids, final_ok=None):
    """predicate: the observed trace equals the reference trace for every valuation"""
    def pred(o):
        if o.kind != 'ret':
            return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
        n = 0
        for m in valuations(o):
            got = observed(o, m)
            sim = Sim(got)
            try:
                if script(sim) is False:
                    continue
            except Missing:
                pass
            n += 1
            d = diff([e for e in sim.out if e[0] != 'Notify' or e[0] == 'Seen'], got, ids)
            if d:
                return d
        return None
    return pred


def statuses(sim, root):
    sim.emit('Seen', 100, root.status)
    for c in root.children:
        sim.emit('Seen', 101, c.status)


def prime(sim, root):
    for i, c in enumerate(root.children):
        if sim.ask('Choose', i):
            c.execute()
    sim.emit('Mark', 0)


def sc_tick(cls, n):
    def script(sim):
        root = cls(sim, 'self', [Ins(sim, i) for i in range(n)])
        prime(sim, root)
        if not root.valid():
            return False
        for c in root.next():
            sim.emit('SeenPtr', 0, c.id)
        sim.emit('Mark', 1)
        root.execute()
        statuses(sim, root)
    return script


def sc_run(cls, n, k):
    def script(sim):
        root = cls(sim, 'self', [Ins(sim, i) for i in range(n)])
        for _ in range(k):
            root.execute()
            statuses(sim, root)
    return script


def sc_halt(cls, n):
    def script(sim):
        root = cls(sim, 'self', [Ins(sim, i) for i in range(n)])
        prime(sim, root)
        root.do_halt()
        sim.emit('SeenBool', 0, root.halt)
        for c in root.children:
            sim.emit('SeenBool', 1, c.halt)
        sim.emit('Mark', 1)
        root.reset()
        sim.emit('SeenBool', 2, root.halt)
        for c in root.children:
            sim.emit('SeenBool', 3, c.halt)
        statuses(sim, root)
    return script


def sc_reset(cls, n):
    def script(sim):
        root = cls(sim, 'self', [Ins(sim, i) for i in range(n)])
        prime(sim, root)
        if not root.valid():
            return False
        if sim.ask('Choose', 100):
            root.execute()
        sim.emit('Mark', 1)
        root.reset()
        statuses(sim, root)
    return script


NESTABLE = (('Sequence', Seq), ('Fallback', Fall), ('ReactiveSequence', RSeq), ('ReactiveFallback', RFall), ('Inverter', Inv), ('ForceSuccess', Force))


def sc_nested(outer, inner, k):
    def script(sim):
        sub = inner(sim, 'sub', [Ins(sim, i) for i in range(1 if issubclass(inner, Deco) else 2)])
        root = outer(sim, 'self', [sub] if issubclass(outer, Deco) else [sub, Ins(sim, 2)])
        for _ in range(k):
            root.execute()
            statuses(sim, root)
            statuses(sim, sub)
    return script


def nested_jobs(T, cls):
    """a composite with a composite as its first child"""
    return [('nested', '%sOf%s' % (T, U), compare(sc_nested(cls, inner, 3), [0, 1, 2]), {'deep': True, 'max_time': 120}) for U, inner in NESTABLE]


def run_programs(ctx, jobs):
    """jobs: (rule, client program, predicate[, kwargs]); analysed in parallel worker processes"""
    ctx.parallel([(rule, name, pred, kw[0] if kw else {}) for rule, name, pred, *kw in jobs])


def tree_jobs(T, cls, deco=False):
    if deco:
        return [('tick', T + 'Tick1', compare(sc_tick(cls, 1), [0])), ('run', T + 'Run1', compare(sc_run(cls, 1, 3), [0]))]
    return [('tick', T + 'Tick1', compare(sc_tick(cls, 1), [0])), ('tick', T + 'Tick2', compare(sc_tick(cls, 2), [0, 1])),
            ('tick', T + 'Tick3', compare(sc_tick(cls, 3), [0, 1, 2])), ('run', T + 'Run2', compare(sc_run(cls, 2, 3), [0, 1]))]


R = 'client programs compared with reference semantics'


@check('C13', rule=R, explain='Sequence and ReactiveSequence with children of unknown behaviour: one tick from every combination of child statuses (1 to 3 children) and runs from the start.')
def c13(ctx):
    run_programs(ctx, tree_jobs('Sequence', Seq) + tree_jobs('ReactiveSequence', RSeq) + nested_jobs('Sequence', Seq) + nested_jobs('ReactiveSequence', RSeq))


@check('C14', rule=R, explain='Fallback and ReactiveFallback, as for the sequences.')
def c14(ctx):
    run_programs(ctx, tree_jobs('Fallback', Fall) + tree_jobs('ReactiveFallback', RFall) + nested_jobs('Fallback', Fall) + nested_jobs('ReactiveFallback', RFall))


def with_attrs(cls, attrs, values=None):
    return type(cls.__name__, (cls,), {'attrs': attrs, 'values': values})


def sc_long(cls, n, k):
    def script(sim):
        root = cls(sim, 'self', [Leaf(sim, i) for i in range(n)])
        for _ in range(k):
            for c in root.next():
                sim.emit('SeenPtr', 0, c.id)
            sim.emit('Mark', 1)
            root.execute()
            statuses(sim, root)
        sim.emit('Mark', 2)
        root.reset()
        statuses(sim, root)
        root.execute()
        statuses(sim, root)
    return script


def sc_repeat(cls):
    def script(sim):
        root = cls(sim, 'self', [Leaf(sim, 0)])
        for _ in range(4):
            root.execute()
            statuses(sim, root)
        root.reset()
        statuses(sim, root)
        root.execute()
        statuses(sim, root)
    return script


def sc_async(cls, n, k):
    def script(sim):
        root = cls(sim, 'self', [Leaf(sim, i) for i in range(n)])
        prime(sim, root)
        for c in root.next():
            sim.emit('SeenPtr', 0, c.id)
        for _ in range(k):
            root.execute()
            sim.emit('Seen', 100, root.status)
            sim.emit('SeenBool', 0, root.halt)
    return script


def sc_async_reset(cls, n, k):
    def script(sim):
        root = cls(sim, 'self', [Leaf(sim, i) for i in range(n)])
        for _ in range(k):
            root.execute()
        sim.emit('Mark', 1)
        root.reset()
        sim.emit('Mark', 2)
        statuses(sim, root)
        for c in root.children:
            sim.emit('SeenBool', 3, c.halt)
        root.execute()
        sim.emit('Seen', 100, root.status)
    return script


def ths(n):
    return [None, 'FAIL'] + list(range(0, n + 2))


@check('C15', rule=R, explain='ParallelSequence with 1 to 3 children of unknown behaviour, every pair of thresholds (absent, unreadable, 0 to N+1), one tick from every combination of child statuses and short runs.')
def c15(ctx):
    jobs = []
    for n in (1, 2, 3):
        for s in ths(n):
            for f in ths(n):
                if n == 3 and not ctx.thorough and (s in ('FAIL', 0) or f in ('FAIL', 0) or (s is None) == (f is None) and s is not None and s + f > 4):
                    continue
                at = {'successThreshold': s, 'failureThreshold': f}
                jobs.append(('threshold-status', 'ParallelTick%d' % n, compare(sc_async(with_attrs(Par, at), n, 1), range(n)), {'attrs': at}))
    for s, f in ((None, None), (1, 1), (1, None), (None, 2)):
        at = {'successThreshold': s, 'failureThreshold': f}
        jobs.append(('threshold-status', 'ParallelRun1', compare(sc_async(with_attrs(Par, at), 1, 3), range(1)), {'attrs': at}))
        jobs.append(('threshold-status', 'ParallelRun2', compare(sc_async(with_attrs(Par, at), 2, 2), range(2)), {'attrs': at}))
    run_programs(ctx, jobs)


@check('C16', rule=R, explain='Inverter, ForceSuccess, Include, Repeat, For and Listen around a child of unknown behaviour: runs from the start for every configuration, one tick from every status of the child.')
def c16(ctx):
    jobs = nested_jobs('Inverter', Inv) + nested_jobs('ForceSuccess', Force) + tree_jobs('Inverter', Inv, True) + tree_jobs('ForceSuccess', Force, True) + tree_jobs('Include', Inc, True)
    for m in (None, 'FAIL', -5, -1, 0, 1, 2, 3):
        at = {'maxCount': m}
        jobs.append(('repeat', 'RepeatRun', compare(sc_repeat(with_attrs(Rep, at)), [0]), {'attrs': at}))
    for arr in ('FAIL', 7, Arr(()), Arr((10,)), Arr((10, 11)), Arr((10, 11, 12))):
        for el in ('FAIL', 5):
            va = {'arrayVar': arr, 'elementVar': el}
            jobs.append(('for', 'ForRun', compare(sc_long(with_attrs(ForM, {}, va), 1, 4), [0]), {'values': va}))
    for force in (None, 'FAIL', False, True):
        for names in (('a',), ('a', 'b')):
            if len(names) > 1 and not (force is None or ctx.thorough):
                continue
            at, va = {'forceSuccess': force}, {'varNames': names}
            two = len(names) > 1
            jobs.append(('listen', 'ListenRun2' if two else 'ListenRun', compare(sc_long(with_attrs(ListenM, at, va), 1, 1 if two else 3), [0]), {'attrs': at, 'values': va}))
    run_programs(ctx, jobs)


@check('C17', rule=R, explain='Choice and UserChoice over two children of unknown behaviour: every kind of selector (index, list, repeated, out of range, not an index) and of user reply.')
def c17(ctx):
    jobs = []
    for v in ('FAIL', 0, 1, 2, -1, 'text', Arr(()), Arr((0,)), Arr((1, 0)), Arr((0, 1)), Arr((0, 0)), Arr((1, 2)), Arr((0, 'x'))):
        va = {'varName': v}
        jobs.append(('choice', 'ChoiceRun', compare(sc_long(with_attrs(ChoiceM, {}, va), 2, 4), [0, 1]), {'values': va}))
    for d in (None, 'FAIL', 'text'):
        at = {'description': d}
        reps = ((False, -1), (True, 0), (True, 1), (True, 2), (True, -1))
        if d is not None:
            reps = ((True, 1),)
        for rep in reps:
            jobs.append(('user-choice', 'UserChoiceRun', compare(sc_long(with_attrs(UserChoiceM, at), 2, 3), [0, 1]), {'attrs': at, 'futures': (rep,)}))
    run_programs(ctx, jobs)


def sc_life(sim):
    p = Ins(sim, 0)
    sim.emit('Seen', 0, p.status)
    p.execute()
    sim.emit('Seen', 1, p.status)
    p.execute()
    sim.emit('Seen', 2, p.status)
    p.reset()
    sim.emit('Seen', 3, p.status)
    p.execute()
    sim.emit('Seen', 4, p.status)


def sc_leaf_halt(sim):
    p = Ins(sim, 0)
    sim.emit('SeenBool', 0, p.halt)
    if sim.ask('Choose', 0):
        p.execute()
    sim.emit('Seen', 0, p.status)
    p.do_halt()
    sim.emit('SeenBool', 1, p.halt)
    p.execute()
    sim.emit('Seen', 1, p.status)
    p.reset()
    sim.emit('SeenBool', 2, p.halt)
    sim.emit('Seen', 2, p.status)
    p.execute()
    sim.emit('Seen', 3, p.status)


class Seeing(Ins):
    def notify(self):
        self.sim.emit('Seen', 200, self.status)


def sc_notify(sim):
    p = Seeing(sim, 0)
    for _ in range(3):
        p.execute()
        sim.emit('Seen', 1, p.status)
    for _ in range(2):
        p.reset()
        sim.emit('Seen', 1, p.status)


@check('C10', rule=R, explain='A leaf instruction with unknown hooks through its whole life: execution, halt, reset and re-execution, and the notifications the user interface receives.')
def c10(ctx):
    run_programs(ctx, [('life', 'ProbeLife', compare(sc_life, [0])), ('halt', 'ProbeHalt', compare(sc_leaf_halt, [0])),
                       ('notify', 'ProbeNotify', compare(sc_notify, [0]))])


FAMILY = (('Sequence', Seq, 2), ('Fallback', Fall, 2), ('ReactiveSequence', RSeq, 2), ('ReactiveFallback', RFall, 2),
          ('Include', Inc, 1), ('Inverter', Inv, 1), ('ForceSuccess', Force, 1))


def halt_reach(n):
    """a halt marks and reaches every descendant; a reset withdraws it everywhere and every status is initial again"""
    def pred(o):
        if o.kind != 'ret':
            return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
        for m in valuations(o):
            got = observed(o, m)
            own = [e[1][1] for e in got if e[0] == 'SeenBool' and e[1][0] == 0]
            ch = [e[1][1] for e in got if e[0] == 'SeenBool' and e[1][0] == 1]
            if own != [True]:
                return 'the instruction does not report the halt request'
            if ch != [True] * n:
                return 'children that see the halt request: %s' % ch
            k0 = got.index(('Mark', (0,), None))
            k = got.index(('Mark', (1,), None))
            for i in range(n):
                if ('Halted', (i,), None) not in got[k0:k]:
                    return 'child %d is not halted' % i
            r = reset_done(got[k:], n)
            if r:
                return r
        return None
    return pred


def halt_again(n):
    """a halt reaches children that were reset since an earlier one"""
    def pred(o):
        if o.kind != 'ret':
            return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
        for m in valuations(o):
            got = observed(o, m)
            for stage, after in ((1, 'the children were reset'), (2, 'a reset')):
                seen = [e[1][1] for e in got if e[0] == 'SeenBool' and e[1][0] == stage]
                if seen != [True] * n:
                    return 'children that see a second halt request after %s: %s' % (after, seen)
                k = got.index(('Mark', (stage,), None))
                for i in range(n):
                    if ('Halted', (i,), None) not in got[k:]:
                        return 'child %d is not halted again after %s' % (i, after)
        return None
    return pred


def reset_done(tail, n):
    for e in tail:
        if e[0] == 'SeenBool' and e[1][0] in (2, 3) and e[1][1] is not False:
            return 'a halt request survives the reset of %s' % ('the instruction' if e[1][0] == 2 else 'a child')
    for i in range(n):
        if ('ResetOf', (i,), None) not in tail:
            return 'child %d is not reset' % i
    st = [e[1][1] for e in tail if e[0] == 'Seen' and e[1][0] in (100, 101)][:n + 1]
    if st != ['NOT_STARTED'] * (n + 1):
        return 'statuses after the reset: %s' % st
    return None


ALLHALT = (('Sequence', 2), ('Fallback', 2), ('ReactiveSequence', 2), ('ReactiveFallback', 2), ('Choice', 2), ('UserChoice', 2),
           ('Parallel', 2), ('Include', 1), ('Inverter', 1), ('ForceSuccess', 1), ('Repeat', 1), ('Async', 1), ('For', 1), ('Listen', 1))


@check('C12', rule=R, explain='Halt and reset of every instruction with children, from every combination of statuses of the children.')
def c12(ctx):
    run_programs(ctx, [('halt-reaches-children', '%sHalt%d' % (t, n), halt_reach(n), {'values': {}}) for t, n in ALLHALT] +
                 [('halt-reaches-children', '%sHaltTwice%d' % (t, n), halt_again(n), {'values': {}}) for t, n in ALLHALT])


def reset_pred(n):
    def pred(o):
        if o.kind != 'ret':
            return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
        for m in valuations(o):
            got = observed(o, m)
            r = reset_done(got[got.index(('Mark', (1,), None)):], n)
            if r:
                return r
        return None
    return pred


@check('C11', rule=R, explain='Reset of every instruction with children, from every combination of statuses: everything is initial again and the next run equals a run of a new instruction.')
def c11(ctx):
    jobs = [('reset', '%sReset%d' % (t, n), compare(sc_reset(c, n), list(range(n)))) for t, c, n in FAMILY]
    run_programs(ctx, jobs)


def joined_first(n):
    """no thread executes a child while the tree is reset, and no child is executed twice at a time"""
    def pred(o):
        if o.kind != 'ret':
            return 'ends with %s %s' % (o.kind, o.cls or show(o.val))
        for m in valuations(o):
            got = observed(o, m)
            for i in range(n):
                busy, asked, inreset = False, False, False
                for e in got:
                    if e[0] == 'Mark':
                        inreset = e[1] == (1,)
                    elif e[0] == 'Spawned' and e[1][0] == i:
                        if busy:
                            return 'child %d is executed by two threads at once' % i
                        busy, asked = True, False
                    elif e[0] == 'Joined' and e[1][0] == i:
                        if busy and inreset and not asked:
                            return 'the reset waits for child %d without asking it to halt' % i
                        busy = False
                    elif e[0] == 'Ready' and e[1][0] == i and e[2] is True:
                        busy = False
                    elif e[0] == 'Halted' and e[1][0] == i:
                        asked = True
                    elif e[0] == 'ResetOf' and e[1][0] == i and busy:
                        return 'child %d is reset while a thread still executes it' % i
                if busy:
                    return 'the thread that executes child %d is never joined' % i
        return None
    return pred


@check('C18', rule=R, explain='Instructions that tick children on other threads: every run, reset and destruction with every combination of finished and unfinished threads.')
def c18(ctx):
    at = {'successThreshold': None, 'failureThreshold': None}
    jobs = [('threads', x, joined_first(n), {'attrs': at}) for x, n in (
        ('AsyncTick1', 1), ('AsyncRun1', 1), ('AsyncReset1', 1), ('AsyncReset2', 1), ('ParallelTick2', 2), ('ParallelRun1', 1), ('ParallelRun2', 2),
        ('ParallelReset0', 2), ('ParallelReset1', 2), ('ParallelReset2', 1))]
    jobs += [('reset', 'AsyncReset%d' % k, compare(sc_async_reset(AsyncDeco, 1, k), [0])) for k in (1, 2)]
    jobs += [('reset', 'ParallelReset%d' % k, compare(sc_async_reset(with_attrs(Par, at), n, k), range(n)), {'attrs': at}) for k, n in ((0, 2), (1, 2), (2, 1))]
    run_programs(ctx, jobs)
